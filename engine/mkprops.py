"""Writes /verif/properties.jsonl (kept as a script so the list is reviewable)."""
import json
F='programs/farming/src/'; A='programs/amm/src/'
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))

p('F01','Snapshots: append-only ring of (slot, vault balance), paced by the window',
 "A successful snapshot records exactly one new entry, the current slot and the balance of the farm's own staking vault, in the ring position after the newest one (wrapping from the last position to the first), and changes nothing else about the farm. It is refused when fewer slots than the farm's minimum snapshot window (7200 when unset) have passed since the newest snapshot, and it always reads the vault recorded in the farm.",
 ['inputs','histories'],'every farm state (every tip position, every window setting, every ring content), slot and vault balance',
 'tests take a handful of snapshots at a few tip positions; all 1000 positions, all window values and the frame (no other entry or field changes) are never enumerated',
 [F+'models/farm.rs',F+'endpoints/take_snapshot.rs'],
 [('Farm::take_snapshot',F+'models/farm.rs'),('take_snapshot::handle',F+'endpoints/take_snapshot.rs')],
 [('snapshots','ring buffer of staked totals',F+'models/farm.rs')],['farm account data after the instruction'])
p('F02','Harvest schedule: ordered, disjoint periods; started emissions are immutable',
 "For every harvest mint the stored periods stay ordered from newest to oldest, do not overlap, and each starts no later than it ends. Scheduling a period changes only the schedule of the named mint: it either replaces the one period that has not started yet or is added as the newest one, it starts after every period that has already started has ended, and no period that has started is altered. A period is dropped to make room only when it ended before the oldest retained snapshot.",
 ['inputs','histories'],'every well-formed schedule of ten periods, every slot, period and rate, every ring content, any sequence of scheduling calls',
 'tests schedule a few periods on nearly empty farms and are compiled with a test-only limit; well-formedness of all reachable schedules is a history property',
 [F+'models/farm.rs',F+'endpoints/new_harvest_period.rs'],
 [('Farm::new_harvest_period',F+'models/farm.rs'),('new_harvest_period::handle',F+'endpoints/new_harvest_period.rs')],
 [('harvests[].periods','emission history per mint',F+'models/farm.rs')],['farm account data after the instruction'])
p('F03','Every harvest period is funded exactly when it is scheduled',
 "Scheduling a period moves into the harvest vault exactly the tokens that period will emit (number of slots, both ends included, times tokens per slot), less what was already deposited for a not-yet-started period it replaces; if the replaced period needed more, exactly the surplus goes back to the admin's wallet, and if both need the same, nothing moves. A period whose total does not fit or which the wallet cannot fund is refused.",
 ['inputs'],'every slot, start, length, rate, existing schedule and wallet balance',
 'unit tests check the product for a few numbers; overflow, equality and refund cases over all inputs and the vault/wallet direction are not covered',
 [F+'endpoints/new_harvest_period.rs'],
 [('new_harvest_period::handle',F+'endpoints/new_harvest_period.rs'),('total_tokens_emitted_per_period',F+'endpoints/new_harvest_period.rs')],
 [],['token transfers issued by the instruction'])
p('F04','Harvest mint registry: unique mints, at most ten, removed only when empty',
 "Adding a harvest mint registers it in a free position with that farm's vault for the mint and an empty schedule, is refused if the mint is already registered or ten are registered, and leaves every other mint untouched. Removing a mint succeeds only while its vault is empty, clears exactly that mint's entry, and closes exactly that vault.",
 ['inputs','histories'],'every registry content and mint, including full, empty and partially cleared registries',
 'tests register one or two mints; fullness, reuse of cleared positions and the frame over the other nine entries are not enumerated',
 [F+'models/farm.rs',F+'endpoints/add_harvest.rs',F+'endpoints/remove_harvest.rs'],
 [('Farm::add_harvest',F+'models/farm.rs'),('add_harvest::handle',F+'endpoints/add_harvest.rs'),('remove_harvest::handle',F+'endpoints/remove_harvest.rs')],
 [('harvests','harvest mint registry',F+'models/farm.rs')],['farm account data','account close instruction'])
p('F05','Harvest accrual is the exact pro-rata share of what was emitted',
 "Updating a farmer credits, for every harvest mint of the farm, their stake divided by the snapshot's staked total, times the tokens emitted in the slots not yet accounted for, summed over the snapshot windows they cover and rounded down once per window: never more than the exact share, and short of it by less than one token plus arithmetic resolution per window. Windows without stake and slots without an emission period credit nothing. Amounts already credited for mints the farm still has are kept, and newly added mints start at zero.",
 ['inputs','histories'],'every farm history (snapshots, schedules), stake, accounting point and slot',
 'farmer tests are not even compiled in this setup and sample a few histories; the combinations of window, period and accounting boundaries are unbounded',
 [F+'models/farmer.rs',F+'models/farm.rs'],
 [('eligible_harvest_until',F+'models/farmer.rs'),('Harvest::tps_history',F+'models/farm.rs'),('Farm::get_window_snapshots_eligible_to_harvest',F+'models/farm.rs'),('sync_harvest_mints',F+'models/farmer.rs')],
 [('harvests','credited but unclaimed harvest',F+'models/farmer.rs')],['farmer account data after the instruction'])
p('F06','No slot is credited twice, and no slot is credited before it has passed',
 "The point up to which a farmer's harvest has been accounted for never moves backwards, an update credits only slots from that point on, and after an update it covers everything credited, so repeating an update credits nothing more. No update, whoever sends it and with whatever arguments, credits harvest for slots after the current one.",
 ['histories','inputs'],'every sequence of updates, stakes, unstakes and compounds, every argument, every slot',
 'a history property over all call sequences; tests run a few fixed sequences',
 [F+'models/farmer.rs',F+'endpoints/update_eligible_harvest.rs'],
 [('Farmer::check_vested_period_and_update_harvest',F+'models/farmer.rs'),('Farmer::update_eligible_harvest',F+'models/farmer.rs'),('update_eligible_harvest::handle',F+'endpoints/update_eligible_harvest.rs')],
 [('calculate_next_harvest_from','first slot not accounted for',F+'models/farmer.rs')],['farmer account data after the instruction'])
p('F07','Vesting: new stake earns only from the first snapshot after its deposit',
 "Tokens added to a farmer's position, by staking or by compounding, earn nothing until a snapshot is taken after their deposit, and the first such snapshot, while it is retained, is the point from which all of them earn. Moving tokens from vested to staked never changes their total, and a later deposit never delays tokens whose snapshot has already been taken.",
 ['histories','inputs'],'every ring content and tip, every deposit slot, every sequence of deposits and snapshots',
 'tests use small hand-written rings; the search for the first snapshot after a slot over every tip position and content is not enumerable by tests',
 [F+'models/farmer.rs',F+'models/farm.rs',F+'endpoints/start_farming.rs',F+'endpoints/compound_across_farms.rs'],
 [('Farm::first_snapshot_after',F+'models/farm.rs'),('Farmer::check_vested_period_and_update_harvest',F+'models/farmer.rs'),('Farmer::add_to_vested',F+'models/farmer.rs')],
 [('vested / staked / vested_at','position of the farmer',F+'models/farmer.rs')],['farmer account data after the instruction'])
p('F08','Stake and unstake conserve tokens exactly',
 "Staking adds exactly the tokens moved from the wallet into the farm's staking vault to the farmer's vested tokens. Unstaking removes the smaller of the requested maximum and the farmer's whole position, takes vested tokens before staked ones, and moves exactly that amount from the farm's staking vault to the chosen wallet under the farm's own authority; only the farmer's authority can do it. Harvest is accounted up to the current slot before either changes the position.",
 ['inputs'],'every position, requested amount, farm and slot',
 'farmer tests are not compiled here and sample amounts; equality and overflow boundaries and the link between bookkeeping and transfer are not covered',
 [F+'models/farmer.rs',F+'endpoints/start_farming.rs',F+'endpoints/stop_farming.rs'],
 [('Farmer::unstake',F+'models/farmer.rs'),('start_farming::handle',F+'endpoints/start_farming.rs'),('stop_farming::handle',F+'endpoints/stop_farming.rs')],
 [],['token transfers and farmer account data'])
p('F09','Claiming pays exactly the recorded harvest, once, from the farm\'s own vault',
 "Claiming transfers, for each supplied vault and wallet pair, exactly the amount recorded for the vault's mint from the farm's own harvest vault for that mint to the wallet, and resets that record to zero; amounts of mints that were not supplied stay as they were, and nothing is paid twice. Vaults that are not the farm's vault for their mint are refused, and only the farmer's authority can claim.",
 ['inputs'],'every record content, every list of pairs including repeated pairs, every mint',
 'claiming is only exercised by TypeScript tests against a validator; lists with repetitions, partial lists and foreign vaults over all inputs are not',
 [F+'endpoints/claim_eligible_harvest.rs',F+'models/farmer.rs'],
 [('claim_eligible_harvest::handle',F+'endpoints/claim_eligible_harvest.rs'),('Farmer::set_harvests',F+'models/farmer.rs')],
 [],['token transfers and farmer account data'])
p('F10','Compounding moves exactly the claimable harvest into the same user\'s stake',
 "Compounding first accounts harvest up to the current slot, then moves the whole recorded harvest of the receiving farm's stake mint: the same amount leaves the source farm's harvest vault, enters the receiving farm's staking vault, is added to the vested tokens of the receiving farmer and is cleared from the source farmer's record, while the other mints' records stay. Across farms it requires a whitelisting of that pair of farms in that direction, two different farms, and two farmers of one user on the respective farms; within one farm it requires the farm's whitelisting of itself.",
 ['inputs','configurations'],'every pair of farms and farmers, record content and whitelist configuration',
 'only TypeScript validator tests touch it; account substitutions over all combinations are not sampled',
 [F+'endpoints/compound_same_farm.rs',F+'endpoints/compound_across_farms.rs',F+'models/farmer.rs'],
 [('compound_same_farm::handle',F+'endpoints/compound_same_farm.rs'),('compound_across_farms::handle',F+'endpoints/compound_across_farms.rs'),('Farmer::claim_harvest',F+'models/farmer.rs')],
 [],['token transfers and farmer account data'])
p('F11','Farmer accounts: created empty for one user and farm, closed only when empty',
 "Creating a farmer yields an empty position tied to the given user and farm, with a zero record for every harvest mint of the farm. A farmer can be closed only by its authority, and only when it has no staked and no vested tokens and no unclaimed harvest of any mint.",
 ['inputs'],'every farmer state and signer, every registry content',
 'not exercised by the Rust tests; each of the ten records and both amounts must be zero for every state',
 [F+'endpoints/create_farmer.rs',F+'endpoints/close_farmer.rs'],
 [('create_farmer::handle',F+'endpoints/create_farmer.rs'),('close_farmer::handle',F+'endpoints/close_farmer.rs')],
 [],['account data and closing'])
p('F12','Only the farm\'s admin, signing, controls the farm',
 "Registering or removing harvest mints, scheduling periods, changing the snapshot window, handing over ownership and adding or removing compounding whitelistings succeed only if the farm's current admin signed, and each changes only the setting it names. Handing over also needs the new admin's signature, and a new farm belongs to the signer that created it.",
 ['inputs','configurations'],'every combination of accounts, signers and farm states',
 'tests check a wrong signer per endpoint at best; substitutions of accounts, missing signatures and the frame are unbounded',
 [F+'endpoints/'+x+'.rs' for x in ('add_harvest','remove_harvest','new_harvest_period','set_farm_owner','set_min_snapshot_window','whitelist_farm_for_compounding','dewhitelist_farm_for_compounding','create_farm')],
 [('handle functions and account constraints',F+'endpoints/')],[('admin','farm admin key',F+'models/farm.rs')],['instruction result and farm account data'])
p('F13','Airdrops credit exactly what is transferred into the harvest vault',
 "An airdrop moves the given positive amount from the sender's wallet into the farm's harvest vault for that wallet's mint and adds exactly that amount to the farmer's record of the same mint, changing nothing else; it is refused for mints the farmer has no record of and when the record would overflow.",
 ['inputs'],'every record content, amount and mint',
 'no Rust test covers it',
 [F+'endpoints/airdrop.rs',F+'models/farmer.rs'],
 [('airdrop::handle',F+'endpoints/airdrop.rs'),('Farmer::get_harvest_mut',F+'models/farmer.rs')],[],['token transfer and farmer account data'])

p('A01','A constant product swap never pays out more than the curve allows',
 "For every constant product pool and every swap that succeeds, the tokens paid out leave a product of the reserves no smaller than before the swap, up to the 10^-18 token resolution of the arithmetic, with the swap fee not even counted in. The payout is otherwise exact: one more token would take the product below its previous value. A swap never empties a reserve.",
 ['inputs'],'every number of reserves from two to four, every reserve and sell amount',
 'property tests of this crate are not compiled here and sample the space; rounding in favour of the trader needs specific quotients',
 [A+'models/pool.rs',A+'math/swap_equation.rs',A+'math/helpers.rs'],
 [('Pool::swap',A+'models/pool.rs'),('compute_delta_withdraw_token_amount',A+'math/swap_equation.rs'),('fold_product',A+'math/helpers.rs')],
 [('reserves','pool reserves',A+'models/pool.rs')],['tokens returned and reserves after'])
p('A02','Swaps settle exactly and respect the trader\'s minimum',
 "A successful swap takes exactly the offered amount from the trader's sell wallet into the pool's vault of that mint, pays exactly the bought amount from the pool's vault of the other mint, and changes the pool's recorded reserves by exactly those amounts, so that the fee stays in the pool. The trader receives at least the minimum they asked for, and vaults, mints and LP mint other than the pool's own are refused.",
 ['inputs'],'every pool state, offered amount, minimum and account combination',
 'swap is tested only by uncompiled or validator tests; the equality of bookkeeping and transfers over all inputs is not covered',
 [A+'endpoints/swap.rs',A+'models/pool.rs'],
 [('swap::handle',A+'endpoints/swap.rs'),('Pool::swap',A+'models/pool.rs')],[],['token transfers and pool account data'])
p('A03','The swap fee is exactly the pool fee less a valid discount, rounded up',
 "The fee of a swap is the offered amount times the pool's fee, reduced by the trader's own discount only while that discount has not expired, rounded up to a whole token. It never exceeds the offered amount, and a discount never makes the fee larger.",
 ['inputs'],'every amount, fee, discount and slot',
 'sampled by a few tests that are not compiled here; rounding and expiry boundaries are not enumerated',
 [A+'endpoints/swap.rs',A+'models/discount.rs'],
 [('calculate_swap_fee',A+'endpoints/swap.rs'),('Discount::does_apply',A+'models/discount.rs')],[],['fee added to reserves'])
p('A04','Pool fees are set only by the pool\'s admin and never exceed 1%',
 "The swap fee of a pool changes only when the pool's admin signs, never to more than 1%, and nothing else about the pool changes with it. A new pool starts with a zero fee.",
 ['inputs'],'every fee, pool and signer',
 'validator tests try one value; the boundary and the frame are not covered',
 [A+'endpoints/set_pool_swap_fee.rs',A+'consts.rs'],
 [('set_pool_swap_fee::handle',A+'endpoints/set_pool_swap_fee.rs')],[('swap_fee','pool fee',A+'models/pool.rs')],['pool account data'])
p('A05','Discounts: at most 100%, expiring in the future, set only by the authority',
 "A discount is stored only when the discount authority signs, is never more than 100% and always expires after the current slot; it is stored for exactly the named user with exactly the given values. The account that names the discount authority, and the one that names the toll authority, can be created only once and only by the program's upgrade authority.",
 ['inputs','configurations'],'every amount, expiry, slot, user and signer',
 'validator tests sample single values',
 [A+'endpoints/put_discount.rs',A+'endpoints/create_discount_settings.rs',A+'endpoints/create_program_toll.rs'],
 [('put_discount::handle',A+'endpoints/put_discount.rs'),('create_discount_settings::handle',A+'endpoints/create_discount_settings.rs'),('create_program_toll::handle',A+'endpoints/create_program_toll.rs')],[],['discount account data'])
p('A06','Deposits never take more than the depositor\'s limits and settle exactly',
 "A deposit takes, for each reserve, at least one token and at most the limit the depositor gave for that mint, in the proportion of the current reserves rounded up to a whole token, and one limit is used up as far as that rounding allows. The amounts transferred from the depositor's wallets into the pool's vaults equal the amounts added to the recorded reserves, once per reserve; the limits must name exactly the pool's mints.",
 ['inputs'],'every pool of two to four reserves, every limit and LP supply',
 'property tests are not compiled here; off-by-one roundings above 10^10 tokens need specific quotients',
 [A+'models/pool.rs',A+'endpoints/deposit_liquidity.rs'],
 [('Pool::deposit_tokens',A+'models/pool.rs'),('Pool::get_deposit_ratio',A+'models/pool.rs'),('deposit_liquidity::handle',A+'endpoints/deposit_liquidity.rs')],[],['token transfers and pool account data'])
p('A07','LP tokens minted on deposit never dilute existing holders',
 "When LP tokens exist, the LP tokens minted for a deposit are no larger a fraction of the existing supply than the deposit is of any reserve of the pool. The first deposit mints the smallest deposited amount, a deposit too small to be worth one LP token is refused, and the depositor is minted exactly the computed amount.",
 ['inputs'],'every pool, deposit and LP supply',
 'dilution needs reserves of very different sizes; the tests sample comparable ones and are not compiled here',
 [A+'models/pool.rs',A+'endpoints/deposit_liquidity.rs'],
 [('Pool::get_eligible_lp_tokens',A+'models/pool.rs'),('try_mul_div',A+'math/helpers.rs'),('deposit_liquidity::handle',A+'endpoints/deposit_liquidity.rs')],[],['LP tokens minted'])
p('A08','Redeeming pays the burned share of every reserve, rounded down, and no more',
 "Redeeming burns exactly the given LP tokens of the user and pays, from each of the pool's vaults, the burned fraction of that reserve rounded down, which is also exactly what is removed from the recorded reserves. It fails if any amount is below the user's minimum for that mint or more LP tokens are burned than exist or the user has, and burning the whole supply pays out everything.",
 ['inputs'],'every pool, LP amount, supply and minimum',
 'tests are not compiled here and sample the space',
 [A+'models/pool.rs',A+'endpoints/redeem_liquidity.rs'],
 [('Pool::redeem_tokens',A+'models/pool.rs'),('redeem_liquidity::handle',A+'endpoints/redeem_liquidity.rs')],[],['token transfers, burn and pool account data'])
p('A09','Depositing and redeeming straight away never makes a profit',
 "Redeeming all LP tokens minted by a deposit, right after the deposit, pays back for every mint at most what was deposited, so the remaining holders' share of every reserve is never reduced by the pair.",
 ['inputs','histories'],'every pool of two to four reserves, every deposit and supply',
 'sampled by proptests that are not compiled here; profit needs rounding coincidences',
 [A+'models/pool.rs'],
 [('Pool::deposit_tokens',A+'models/pool.rs'),('Pool::redeem_tokens',A+'models/pool.rs')],[],['tokens in minus tokens out'])
p('A10','Pools are created only from clean vaults and a pool-controlled LP mint',
 "A pool is created only with two to four vaults of pairwise different mints, each owned by the pool's signer and without delegate, close authority or freeze, with an LP mint whose mint authority is the pool's signer and which has no freeze authority, and with a toll wallet of that LP mint owned by the toll authority. Vaults are all empty if no LP tokens exist, and all non-empty otherwise. The pool records exactly these accounts, the vault balances, the creator as admin, and the requested curve.",
 ['inputs','configurations'],'every combination of vault, mint and wallet states and amplifier',
 'validator tests try one violation at a time, not the combinations and positions',
 [A+'endpoints/create_pool.rs'],[('create_pool::handle',A+'endpoints/create_pool.rs')],[],['pool account data'])
p('A11','Stable curve: stored invariant follows the reserves and never exceeds their sum',
 "After the creation and every deposit, redemption and swap of a stable pool the stored invariant is the one computed from the reserves just stored and the unchanged amplifier: zero when any reserve is empty, and otherwise at most the sum of the reserves. A constant product pool stays one.",
 ['inputs'],'every stable pool of two to four reserves and amplifier',
 'convergence and bound of an iterative computation over all reserves; tests sample it and are not compiled here',
 [A+'math/stable_curve_invariant.rs',A+'models/pool.rs'],
 [('StableCurveInvariant::compute',A+'math/stable_curve_invariant.rs'),('Pool::update_curve_invariant',A+'models/pool.rs')],
 [('curve','curve with stored invariant',A+'models/pool.rs')],['pool account data'])
p('A12','The program toll is at most a third of the swap fee\'s value',
 "The LP tokens minted as toll during a swap are no larger a fraction of the LP supply than a third of the fee, spread over all reserves and rounded to a whole token, is of the reserve that was sold into; if that is zero no LP tokens are minted. They go only to the toll wallet recorded in the pool, and computing them does not change the pool.",
 ['inputs'],'every pool, fee and LP supply',
 'rounding over reserves of very different sizes is not sampled',
 [A+'endpoints/swap.rs',A+'models/pool.rs'],
 [('calculate_toll_in_lp_tokens',A+'endpoints/swap.rs'),('Pool::deposit_tokens',A+'models/pool.rs')],[],['LP tokens minted to the toll wallet'])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
print(len(P))
