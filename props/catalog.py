"""The properties: what is claimed, in the terms of the contracts' users."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), level_note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                           'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'observe_at': list(observe)}))


ACT, SUB, RES, INT, HF = 'pool/src/pool/actions.rs', 'pool/src/pool/submit.rs', 'pool/src/pool/reserve.rs', 'pool/src/pool/interest.rs', 'pool/src/pool/health_factor.rs'
USR, POO, BAD, STA, CFG = 'pool/src/pool/user.rs', 'pool/src/pool/pool.rs', 'pool/src/pool/bad_debt.rs', 'pool/src/pool/status.rs', 'pool/src/pool/config.rs'
AUC, ALQ, ABD, AIN = 'pool/src/auctions/auction.rs', 'pool/src/auctions/user_liquidation_auction.rs', 'pool/src/auctions/bad_debt_auction.rs', 'pool/src/auctions/backstop_interest_auction.rs'
EMD, EMM, PCT = 'pool/src/emissions/distributor.rs', 'pool/src/emissions/manager.rs', 'pool/src/contract.rs'

prop('P01', 'Share supplies equal the sum of all accounts\' shares',
     'For every reserve of a lending pool, the total supplied shares equal the sum of all accounts\' collateral and supply shares, and the total debt shares equal the sum of all accounts\' debt shares, the backstop\'s included: every operation of the pool changes the totals by exactly what it changes the accounts by. The only debt shares that leave the total without leaving an account through payment are the defaulted ones of the backstop. No account ever holds a negative balance.',
     ['inputs', 'histories', 'configurations'], 'every request list up to the bound, every auction fill and bad debt transfer, from every pre-state with arbitrary balances, rates, prices and configuration',
     'Tests sample a few amounts per request; the totals have to agree for every combination of requests, roundings, partial fills and transfers.',
     [ACT, RES, USR, ALQ, ABD, BAD], [('supply and position change together', USR + ' User::add_*/remove_*'), ('auction fills move positions', ALQ + ' fill_user_liq_auction')],
     [('b_supply, d_supply', 'total shares of a reserve', RES), ('Positions', 'an account\'s shares', USR)])
prop('P02', 'Lending requests move exactly what they say, rounded against the user',
     'Each supply, withdraw, borrow and repay request (with or without collateral) moves the stated amount of tokens and changes the account\'s and the reserve\'s shares by the amount divided by the current rate, rounded in favour of the pool (down when shares are granted for deposits or debt is cancelled, up when shares are burnt or debt is created). A withdrawal is capped at the balance and a repayment above the debt cancels the debt and returns the excess; negative amounts are refused. Nothing else changes: no other account, no other share balance, no other token movement.',
     ['inputs', 'configurations'], 'every list of one or two such requests (three in the thorough tier) with arbitrary amounts, from every pre-state with arbitrary balances, rates and time since the last accrual',
     'Rounding errors show only for particular rate/amount combinations and the aggregation of several requests only for particular lists; the tests use a handful of round numbers.',
     [ACT, RES, USR, SUB], [('conversion and rounding', RES + ' to_b_token_up/down, to_d_token_up/down'), ('request dispatch', ACT + ' build_actions_from_request'), ('transfers', SUB + ' execute_submit')],
     observe=['token transfers', 'stored positions and reserve data'])
prop('P03', 'No account ends a risk-increasing submission under-collateralised',
     'After any submission that withdraws collateral, borrows, fills a liquidation or bad debt auction, or cancels the account\'s own liquidation auction, an account that has any debt has collateral, weighted by collateral factor and oracle price, worth at least 1.00001 times its debt, weighted by liability factor and price. Balances are valued at rates that include the interest accrued up to that moment, for all of the account\'s reserves, whatever the decimals of the assets and the oracle.',
     ['inputs', 'histories', 'configurations'], 'every request list up to the bound and every combination of positions on up to three reserves, with arbitrary prices, factors, rates and amounts',
     'Tests check single borrow amounts around one configuration; the guarantee has to survive all combinations of requests, positions, decimals and roundings.',
     [SUB, HF, ACT], [('health check after the requests', SUB + ' execute_submit'), ('weighting and rounding', HF + ' PositionData::calculate_from_positions'), ('which requests require it', ACT + ' build_actions_from_request')],
     observe=['stored positions at the end of submit'])
prop('P04', 'Interest is conserved: lenders and backstop receive what borrowers accrue',
     'When a reserve accrues interest its debt never shrinks, its deposits never shrink and the backstop is never charged. Of the interest borrowers accrue, the backstop\'s take-rate share (rounded down) goes to the backstop and the rest to the lenders, who never receive more than that and less by rounding only. Every operation that touches a reserve brings its accrual up to the current time, and a second accrual at the same time changes nothing.',
     ['inputs', 'histories'], 'one accrual from every reserve state (rates, supplies, modifier, elapsed time, curve and take rate within the bounds), through every entry point that stores a reserve',
     'Rounding leaks and lost interest depend on the exact rates, supplies and elapsed seconds; tests check a few snapshots.',
     [RES, INT, POO], [('accrual', RES + ' Reserve::load'), ('gulp/share split', RES + ' Reserve::load accrued'), ('accrual factor', INT + ' calc_accrual')],
     [('d_rate, b_rate', 'tokens per share', RES), ('backstop_credit', 'the backstop\'s interest', RES), ('last_time', 'time of the last accrual', RES)])
prop('P05', 'The interest rate follows the three-leg curve and its bounded modifier',
     'Interest accrues at the rate the three-leg curve gives for the reserve\'s utilisation (utilisation rounded up, legs split at the target and at 95 %), scaled by the modifier in the first two legs and with the last leg\'s steep part unscaled, over exactly the elapsed seconds of a 365-day year. The modifier moves by reactivity times elapsed seconds times the distance of the utilisation from the target, up when above and down when below, and always stays between 0.1 and 10.',
     ['inputs', 'histories'], 'every utilisation, modifier in its range, curve, reactivity and elapsed time within the bounds',
     'The curve has kinks and clamps at which an off-by-one or a wrong rounding shows for isolated values only.',
     [INT, RES], [('curve and modifier', INT + ' calc_accrual'), ('utilisation', RES + ' Reserve::utilization')],
     [('ir_mod', 'interest rate modifier', RES)])
prop('P06', 'A borrow never leaves utilisation above the reserve\'s maximum',
     'Immediately after a borrow request is applied, the reserve\'s debt is at most its maximum utilisation times its deposits (both at current rates, ratio rounded up), wherever the borrow stands in a list of requests. Nothing can be borrowed from a reserve without deposits.',
     ['inputs', 'histories'], 'every list of one or two requests containing a borrow (three in the thorough tier), any amounts and reserve states',
     'A cap checked against stale totals or before the borrow is applied passes tests that borrow once from a liquid reserve.',
     [ACT, RES], [('cap check after the borrow', ACT + ' build_actions_from_request'), ('rounding of the ratio', RES + ' Reserve::require_utilization_below_max')])
prop('P07', 'The pool\'s status gates exactly the risk-increasing requests',
     'Borrowing and cancelling one\'s own liquidation auction are accepted only while the pool is active (status 0 or 1), supplying with or without collateral only while it is active or on ice (status up to 3); a list containing a forbidden request is refused as a whole. No status ever stops withdrawals, repayments or auction fills.',
     ['inputs', 'configurations'], 'every status, every request type and pairs of them',
     'There are seven statuses and ten request types, with lists; tests pick single combinations.',
     [ACT, POO], [('gate', POO + ' Pool::require_action_allowed'), ('called per request', ACT + ' build_actions_from_request')],
     [('PoolConfig.status', 'pool status', 'pool/src/storage.rs')])
prop('P08', 'Pool status changes follow the backstop\'s health exactly',
     'A permissionless status update gives: from an admin-active pool on-ice (3) if the backstop is below its minimum or at least 50 % of it is queued; from an admin-on-ice pool frozen (5) if at least 75 % is queued; otherwise frozen (5) from 60 % queued, on-ice (3) from 30 % queued or below the minimum, else active (1); it is refused for a pool in setup or frozen by the admin. Only the admin can set a status directly, only to 0, 2, 3 or 4: active needs the minimum backstop and less than 50 % queued, on-ice less than 75 % queued, and freezing always works. No other operation changes the status.',
     ['inputs', 'configurations'], 'every status, queued share and backstop holdings, every requested status number',
     'The thresholds overlap by status; tests check one value on one side of most of them.',
     [STA, POO], [('permissionless transitions', STA + ' execute_update_pool_status'), ('admin transitions', STA + ' execute_set_pool_status'), ('minimum backstop', POO + ' calc_pool_backstop_threshold')],
     [('PoolConfig.status', 'pool status', 'pool/src/storage.rs')])
prop('P09', 'Auction fills scale linearly with age and by the requested percentage',
     'A fill of p percent (1 to 100) takes p percent of each amount the auction still holds (debt or payment side rounded up, offered side rounded down); of the offered side the filler receives age/200 up to block 200 and all of it after, on the paying side all of it up to block 200 and then 1/200 less per block until nothing at block 400. Exactly the unscaled p percent leaves the auction, a full fill removes it (and so does a fill after which the rest of the debt is written off), and nobody can fill before the auction\'s start block.',
     ['inputs', 'histories'], 'all percentages, ages and amounts for one asset per side; four fixed percentage/age combinations with two assets per side; two fills in a row',
     'Boundaries (block 0, 200, 400; partial remainders) and rounding on both sides multiply; tests sample a few points.',
     [AUC, ALQ, ABD, AIN], [('scaling', AUC + ' scale_auction'), ('fill and remainder', AUC + ' fill')],
     [('AuctionData', 'bid, lot and start block', AUC)])
prop('P10', 'Only unhealthy accounts can be auctioned off, by a fair amount',
     'A liquidation auction can be created only for an account whose debt, weighted by liability factor, is at least its collateral weighted by collateral factor, never for the pool or the backstop and never while one is in progress. The requested percentage (1 to 100) of every debt is auctioned, against the collateral share that repays it with the incentive derived from the account\'s factors; a partial auction must leave the account with some debt and a health between 1.03 and 1.15, and a full one is possible only if the whole collateral is needed. Creating an auction moves nothing.',
     ['inputs', 'configurations'], 'accounts with up to two debts and two collaterals, any balances, prices, factors and percentage (fixed percentages for more than one asset per side)',
     'The sizing is a chain of seven roundings in the oracle\'s decimals, and a band check; a handful of concrete accounts cannot show that no account can be over-liquidated.',
     [ALQ, HF, AUC], [('sizing and band', ALQ + ' create_user_liq_auction_data')])
prop('P11', 'Liquidation fills only move positions between liquidated and filler',
     'Filling a liquidation moves debt and collateral from the liquidated account to the filler, the same shares that leave the one reaching the other, never more than the auction offers, and leaves plain deposits, all other accounts, reserve totals and token balances as they were. Combined with other requests in one submission the effects add up. Nobody can fill their own auction or an auction that does not exist.',
     ['inputs', 'histories'], 'liquidation fills at any percentage and age, alone and together with a lending request',
     'Two accounts and two cached structures are updated at once; a lost or duplicated update shows only for particular mixes.',
     [ALQ, AUC, USR, ACT], [('both sides', ALQ + ' fill_user_liq_auction'), ('filler state carried through the list', ACT + ' build_actions_from_request')])
prop('P12', 'Bad debt moves to the backstop exactly and is written off only when it fails',
     'An account\'s debt can be moved to the backstop only when the account has debt and no collateral, and then all of it moves, exactly, with nothing else changing; the backstop\'s own debt cannot. Debt is written off (to the loss of lenders) only after a bad debt fill, only what the backstop then still owes, all of it, and only if the backstop is below 5 percent of its minimum; otherwise none is.',
     ['inputs', 'histories'], 'accounts and backstops with up to two debts, all fills with one asset, all backstop holdings',
     'The write-off sits behind a fill, a threshold with fifth powers and the emptiness of the auction; tests cover one path on each side.',
     [BAD, ABD, POO], [('transfer', BAD + ' transfer_bad_debt_to_backstop'), ('write-off', BAD + ' burn_backstop_bad_debt'), ('trigger', ABD + ' fill_bad_debt_auction')])
prop('P13', 'Interest auctions sell the backstop\'s credit once, for 1.4 times its value',
     'An interest auction offers exactly the accrued backstop credit of the listed reserves, is created only if that is worth more than 200, and asks 1.4 times its value in backstop tokens, counting no asset twice. A fill pays the filler the scaled credit, lowers each reserve\'s credit by exactly what is paid out, donates the payment to the pool\'s backstop, and changes nothing else. There is at most one at a time, and the backstop cannot fill it.',
     ['inputs', 'histories'], 'creations over lists of one to three entries, fills at any percentage and age for one asset',
     'The value runs through three decimals systems; list shapes like duplicates are not in the tests.',
     [AIN, AUC], [('creation', AIN + ' create_interest_auction_data'), ('fill', AIN + ' fill_interest_auction')],
     [('backstop_credit', 'interest owed to the backstop', RES)])
prop('P14', 'Bad debt auctions offer 1.4 times the debt, at most what the backstop holds',
     'A bad debt auction asks for all of the backstop\'s debt and offers backstop tokens worth 1.4 times that debt, never more than the pool\'s backstop holds; it needs debt of positive value and at most one exists. A fill moves debt from the backstop to the filler, draws at most the offered tokens from this pool\'s backstop for the filler, and moves no pool assets. The backstop cannot fill it.',
     ['inputs', 'histories'], 'a backstop with up to two debts, any balances, prices, holdings; fills at any percentage and age for one asset',
     'The lot is valued through pool-token prices in three decimals systems, with a cap; tests use one price set.',
     [ABD, AUC], [('creation', ABD + ' create_bad_debt_auction_data'), ('fill', ABD + ' fill_bad_debt_auction')])
prop('P22', 'An open auction can be filled at every block from its start on',
     'From its start block on, an auction of any type can be filled at every later block, at every pool status, by a healthy account: no age makes the fill fail, not even those at which one side has become zero.',
     ['inputs', 'histories'], 'every age from 0 to 900 blocks, all three auction types, every status',
     'A side that is dropped at the ends of the price curve is hit only at exactly those blocks.',
     [AUC, ALQ, ABD, AIN], [('scaled amounts of zero', AUC + ' scale_auction'), ('use of the scaled sides', ABD + ' fill_bad_debt_auction')])
prop('P15', 'Reserve settings are valid, timelocked, and applied without losing interest',
     'A reserve configuration is accepted only within its documented limits, outside setup takes effect no earlier than a week after it was queued, is applied exactly as queued and only once, and cannot be replaced while queued. A reserve keeps its index and decimals for ever; interest up to a change is accrued under the old configuration, and the rate modifier restarts exactly when the rate curve changes. A new reserve gets the next index, starts empty at rate 1, and a pool has at most 32.',
     ['inputs', 'configurations', 'histories'], 'every configuration (eleven 32-bit numbers), every status and pair of times, pools with 0, 1, 2, 31 and 32 reserves',
     'The limits are eleven inequalities and the timelock a history over time; tests check one value beyond each limit.',
     [CFG, RES], [('limits', CFG + ' require_valid_reserve_metadata'), ('timelock', CFG + ' execute_queue_set_reserve, execute_set_reserve'), ('application', CFG + ' initialize_reserve')],
     [('ResInit', 'queued configuration', 'pool/src/storage.rs'), ('ResConfig', 'active configuration', 'pool/src/storage.rs')])
prop('P16', 'Only the admin administers a pool, which is initialised exactly once',
     'Changing the admin (with the new admin\'s consent), the take rate or position limit, queueing or cancelling reserve settings, setting the status and the emission shares all require the current admin\'s authorisation and have exactly the named effect; the take rate is always below 1. A pool is initialised once, with valid settings and in setup. No other operation changes the admin, oracle, backstop, tokens, take rate or position limit.',
     ['inputs', 'histories'], 'every entry point with arbitrary administrative arguments',
     'The negative (no way around the admin) is about all entry points and all arguments; tests mock all authorisations.',
     [PCT, CFG], [('authorisation', PCT + ' impl Pool for PoolContract'), ('initialisation', CFG + ' execute_initialize'), ('settings', CFG + ' execute_update_pool')],
     [('Config, Admin', 'settings and administrator', 'pool/src/storage.rs')])
prop('P17', 'No decision is made on a price older than a day',
     'A submission that needs a health check, and the creation of a liquidation, bad debt or interest auction, succeed only if the price of every asset involved (all collateral and debts of the account, or all assets auctioned) comes from the pool\'s oracle and is at most 24 hours old. They are refused as stale only if some price is older.',
     ['inputs', 'configurations'], 'every price time and current time, every request type and auction creation over two reserves',
     'Off-by-a-boundary and assets that escape the check depend on the mix of positions and times.',
     [POO, HF], [('staleness', POO + ' Pool::load_price'), ('which assets', HF + ' PositionData::calculate_from_positions')])
prop('P18', 'Reserve emissions accrue by time and share, and are paid once',
     'A token\'s emission index grows by rate times elapsed time (not beyond the end of the emissions) divided by its supply; an account is owed its balance times the index growth since its last record (since the beginning without one), rounded down. A claim, only with the account\'s authorisation, pays exactly what is owed for the named tokens out of the pool\'s backstop allowance to the receiver, leaves nothing claimable, and a second claim at the same time pays nothing. The configured shares never exceed the whole and name only the pool\'s own tokens.',
     ['inputs', 'histories'], 'claims of one or two token ids with any emission state, balances and records; configurations with up to three entries of arbitrary numbers',
     'Accrual is a product of three unknowns with floors, with special cases at the end of emissions and for zero supplies and balances.',
     [EMD, EMM], [('index', EMD + ' update_emission_data_with_config'), ('account', EMD + ' update_user_emissions'), ('claim', EMD + ' execute_claim')],
     [('EmisData, UserEmis', 'index per token, record per account', 'pool/src/storage.rs')])
prop('P19', 'No account opens more positions than the pool allows',
     'After any submission, an account whose number of debts and collaterals has grown has at most the pool\'s limit of them; positions of zero do not exist and do not count, plain deposits do not count. The limit refuses only submissions that would exceed it, never one that opens no position.',
     ['inputs', 'configurations'], 'all lists of one or two requests and fills over two reserves (four debts and collaterals), every limit from 2 to 60',
     'The count has to be taken at the right moment over lists and fills; tests open positions one by one.',
     [POO, ACT, USR], [('limit', POO + ' Pool::require_under_max'), ('count', USR + ' Positions::effective_count')])
prop('P20', 'An account\'s shares and tokens move only with its authorisation',
     'A submission changes only the positions of its owner (and those of the account whose auction it fills), takes tokens only from its payer and sends tokens only to its receiver, and succeeds only with the authorisation of owner and payer; the pool itself can be none of the three. Only an account\'s own submission cancels its liquidation auction, and nothing anybody can call without authorisation moves tokens or positions, other than the transfer of bad debt.',
     ['inputs', 'configurations'], 'all combinations of owner, payer and receiver among equal and distinct accounts, backstop and pool, with every request type',
     'Tests mock all authorisations and mostly use one account for all roles.',
     [PCT, SUB, ACT], [('authorisation', PCT + ' submit'), ('roles of transfers', SUB + ' execute_submit')])
prop('P21', 'Balances change only after emissions are credited at the old balance',
     'Whenever an account\'s debt or deposit shares of a token change, in a request, an auction fill (on both sides) or a bad debt transfer, the token\'s emissions are first accrued with the supply of before and the account is credited with its balance of before; several requests in one submission are credited once, at the balance of before the first. The emissions of other accounts and tokens are untouched.',
     ['inputs', 'histories'], 'all request types alone and in pairs, fills and bad debt transfers, with any emission state, with and without earlier records',
     'Wrong ordering is invisible without emissions, time passing and a second account; each operation has its own call.',
     [USR, EMD, ALQ, BAD], [('order', USR + ' User::add_*/remove_*'), ('accrual', EMD + ' update_emissions')],
     [('UserEmis', 'record per account', 'pool/src/storage.rs')])
prop('P23', 'New emissions are spread over a week on top of what was not yet emitted',
     'When a pool collects new emissions, each configured token gets its share (rounded down) plus what its previous emissions had not yet emitted, as a rate over exactly one week from now, rounded so that never more is emitted than there is; the previous emissions are first accrued up to now. Tokens without a share keep their emissions, less than one token is refused, and nothing else changes.',
     ['inputs', 'histories'], 'up to three shares over two reserves with any earlier emission state and any amount',
     'The carry-over is visible only with a second collection before the end of the first, for particular times.',
     [EMM, EMD], [('spreading', EMM + ' update_reserve_emission_config')],
     [('EmisConfig', 'rate and end per token', 'pool/src/storage.rs')])

DEP, FUQ, WTH, FUN = 'backstop/src/backstop/deposit.rs', 'backstop/src/backstop/fund_management.rs', 'backstop/src/backstop/withdrawal.rs', 'backstop/src/backstop/fund_management.rs'
BPO, BUS, BEM, BED, BCL, BCT = 'backstop/src/backstop/pool.rs', 'backstop/src/backstop/user.rs', 'backstop/src/emissions/manager.rs', 'backstop/src/emissions/distributor.rs', 'backstop/src/emissions/claim.rs', 'backstop/src/contract.rs'
prop('P24', 'Backstop shares of a pool equal the sum of all depositors\' shares',
     'For each pool, the backstop\'s total shares equal the sum of all depositors\' unqueued and queued shares, and its queued total equals the sum of the depositors\' queues: deposits and claims create, queueing and dequeueing move, and withdrawals destroy exactly the same number of shares of the depositor and of the pool. No operation changes another depositor\'s or another pool\'s shares.',
     ['inputs', 'histories'], 'every operation of the backstop with arbitrary amounts on depositors with queues of up to three entries, any pre-state of two or three pools',
     'The totals must agree over every history of deposits, queues, partial dequeues and withdrawals; tests follow a few.',
     [DEP, WTH, BPO, BUS], [('deposit', DEP + ' execute_deposit'), ('queue and withdrawal', WTH + ' execute_queue_withdrawal, execute_dequeue_withdrawal, execute_withdraw'), ('totals', BPO + ' PoolBalance')],
     [('PoolBalance', 'shares, queued shares and tokens of a pool', BPO), ('UserBalance', 'unqueued shares and queue of a depositor', BUS)])
prop('P25', 'Backstop deposits and withdrawals are priced fairly and rounded for the pool',
     'A deposit mints the tokens\' proportion of the pool\'s shares (one to one for a pool without shares) and a withdrawal returns the shares\' proportion of its tokens, both rounded down; a deposit that would mint nothing and a withdrawal that would return nothing are refused. Deposits, withdrawals and claims never lower the tokens behind a share, and depositing and withdrawing without gains in between never returns a profit. Donations and draws change the pool\'s tokens by exactly the amount and no shares.',
     ['inputs', 'histories'], 'every amount and every balance of the pool up to 2^80',
     'Rounding in the wrong direction shows only for particular ratios of tokens to shares.',
     [BPO, DEP, WTH, FUN], [('conversion', BPO + ' convert_to_shares, convert_to_tokens'), ('donate and draw', FUN + ' execute_donate, execute_draw')],
     [('PoolBalance', 'shares and tokens of a pool', BPO)])
prop('P26', 'Backstop withdrawals wait 21 days in an ordered queue',
     'Shares leave the backstop only after they have been queued for 21 days: queueing takes them from the depositor\'s unqueued shares and appends an entry that unlocks 21 days from now; a queue has at most 21 entries. A withdrawal consumes entries oldest first and only unlocked ones, dequeueing consumes oldest first too, and no one queues, dequeues or withdraws more than there is. Shares that are unlocked can be withdrawn.',
     ['inputs', 'histories'], 'queues of up to four, of 7, 12 and 21 entries with arbitrary amounts and unlock times in order, every current time',
     'Partial consumption of entries and the boundary second of the lock depend on exact amounts and times.',
     [BUS, WTH], [('queue', BUS + ' UserBalance::queue_shares_for_withdrawal'), ('dequeue', BUS + ' UserBalance::dequeue_shares_for_withdrawal'), ('withdraw', BUS + ' UserBalance::withdraw_shares')],
     [('UserBalance.q4w', 'queue of withdrawals', BUS)])
prop('P27', 'Each pool\'s backstop funds move only by its depositors and the pool itself',
     'Backstop tokens of a pool leave only through withdrawals authorised by the depositor, which pay the depositor, and draws authorised by the pool, never more than the pool has; deposits are authorised by the depositor and donations by both donor and pool, and the tokens received equal the growth of the pool\'s balance. Only pools of the factory receive a first deposit or donations, and the backstop cannot deposit in itself. Operations on one pool, and everything anybody can call without authorisation, leave all other balances and tokens alone.',
     ['inputs', 'configurations'], 'every entry point, arbitrary amounts, equal and distinct accounts',
     'Tests mock all authorisations; isolation is a statement about all operations and all other pools.',
     [DEP, FUN, WTH, BCT], [('authorisation', BCT + ' impl Backstop for BackstopContract'), ('factory check', BPO + ' require_is_from_pool_factory')],
     [('PoolBalance.tokens', 'tokens of a pool', BPO)], observe=['token transfers', 'authorisations'])
prop('P28', 'Collected emissions go 70 % to depositors, 30 % to pools, by unqueued deposits',
     'When the backstop collects emissions, of one token per second since the last distribution, 70 % go to the depositors and 30 % to the pools of the reward zone, split by each pool\'s unqueued backstop tokens and rounded down, so that never more is given out than was emitted. A pool\'s depositors receive their part, with what was left of earlier emissions, evenly over one week from now, after earlier emissions have been accrued. At least an hour of emissions must be due, and then collection works whenever any pool of the reward zone has unqueued deposits.',
     ['inputs', 'histories'], 'reward zones of one or two pools (thorough: three) with any balances, any earlier emissions, any time since the last distribution',
     'The split is a chain of floors over pools; leftovers and empty or fully queued pools appear only in histories tests do not have.',
     [BEM, BED], [('split', BEM + ' gulp_emissions'), ('per pool', BEM + ' set_backstop_emission_eps')],
     [('BEmisCfg, BEmisData', 'rate, end and index of a pool\'s depositors\' emissions', 'backstop/src/storage.rs'), ('PoolEmis', 'emissions assigned to a pool', 'backstop/src/storage.rs')])
prop('P29', 'The reward zone admits pools above the threshold and replaces only smaller ones',
     'A pool enters the reward zone only if its backstop is above the minimum; while the zone has a free place (ten at the start, one more every 2^23 seconds) it replaces none, otherwise it replaces exactly the named pool, which must be a member with fewer backstop tokens, and then emissions must have been distributed in the last 24 hours. No pool is in the zone twice, and a pool that meets the conditions is not refused. Nothing else changes the reward zone.',
     ['inputs', 'configurations'], 'zones of 0 to 20 pools at their limits, any time, any balances, any pool to remove',
     'Size limits depend on time, membership on the whole list; tests try one size.',
     [BEM], [('admission', BEM + ' add_to_reward_zone'), ('removal', BEM + ' remove_pool')],
     [('RewardZone', 'list of pools', 'backstop/src/storage.rs')])
prop('P30', 'A backstop claim pays out all accrued emissions once, as backstop deposits',
     'A claim with the account\'s authorisation takes all emissions the account has accrued in the listed pools, once, buys backstop tokens for exactly that sum, and deposits each pool\'s part of them in that pool for the receiver, priced as a deposit and complete up to rounding. Listing a pool twice pays neither more nor less, an empty list is refused, and afterwards nothing is claimable at the same time.',
     ['inputs', 'histories'], 'one, two or three listed pools, with repetitions, any emission states, balances and receivers',
     'Per-pool parts are rounded shares of a total bought in one join; repeated pools and receiver roles are not in the tests.',
     [BCL, BED], [('claim', BCL + ' execute_claim'), ('accrual', BED + ' claim_emissions')],
     [('UEmisData', 'record per depositor', 'backstop/src/storage.rs')])
prop('P31', 'Backstop emissions accrue to unqueued shares only, credited before they change',
     'A pool\'s depositor emissions grow by rate times time, until their end, divided by the unqueued shares; a depositor earns that for each unqueued share and nothing for queued ones. Every operation that changes unqueued shares, including the receiver of a claim, first credits what was earned with the shares of before, and no operation changes what another depositor has earned. While nobody holds unqueued shares the emissions wait, and in total no more is earned than was emitted.',
     ['inputs', 'histories'], 'every operation on shares, with any emission state, records, queues and times, for two accounts',
     'Wrong ordering is invisible without emissions, time passing and a second account.',
     [BED, DEP, WTH, BCL], [('index', BED + ' update_emission_data'), ('account', BED + ' update_user_emissions'), ('order', WTH + ' execute_queue_withdrawal')],
     [('BEmisData', 'index of a pool', 'backstop/src/storage.rs'), ('UEmisData', 'record per depositor', 'backstop/src/storage.rs')])
prop('P32', 'A pool collects its assigned emissions once, as a larger allowance',
     'A pool, with its own authorisation, collects exactly the emissions assigned to it, once: its allowance of the emission token from the backstop grows by exactly that amount, on top of what is left, and lasts at least 120 days. Having nothing assigned is refused, nothing else changes, and no other operation touches assigned emissions than their collection and distribution.',
     ['inputs', 'histories'], 'every assigned amount and earlier allowance, one or two collections in a row, two pools',
     'Overwriting instead of adding is invisible to a single collection.',
     [BEM], [('collection', BEM + ' gulp_pool_emissions')], [('PoolEmis', 'emissions assigned to a pool', 'backstop/src/storage.rs')])
prop('P33', 'The backstop reports pools and values its token correctly',
     'The reported data of a pool are its queued share of all shares (rounded up) and the emission tokens and stablecoins its backstop tokens stand for (rounded down), at the stored value per backstop token. Updating that value sets it to the pool\'s current holdings of both divided by its supply; only that update changes it, and the other reports are the stored balances.',
     ['inputs', 'histories'], 'every balance up to 2^80 and every holdings and supply of the backstop token',
     'Rounding directions and swapped assets need asymmetric values; every decision of pools rests on these numbers.',
     [BPO, FUN, BCT], [('report', BPO + ' load_pool_backstop_data'), ('value update', 'backstop/src/backstop/fund_management.rs execute_update_comet_token_value')],
     [('LPTknVal', 'holdings per backstop token', 'backstop/src/storage.rs')])
EMI, EMB, EMC, PFC = 'emitter/src/emitter.rs', 'emitter/src/backstop_manager.rs', 'emitter/src/contract.rs', 'pool-factory/src/pool_factory.rs'
prop('P34', 'The emitter emits one token per second, to the current backstop, once',
     'A distribution mints exactly one token for each second since the last distribution to the current backstop, records the time, and can never be refused; a second is paid once. A swap pays the old backstop up to the swap and the new one from then on, also if it was the backstop before. No other operation mints (the drop aside) or changes the times of distribution.',
     ['inputs', 'histories'], 'every time, every pair of operations at any two times, swaps to new and to former backstops',
     'Lost or doubled seconds need a particular order of distributions and swaps over time.',
     [EMI, EMB], [('distribution', EMI + ' execute_distribute'), ('swap', EMB + ' execute_swap_backstop')],
     [('LastDistro', 'last distribution per backstop', 'emitter/src/storage.rs')], observe=['minted tokens'])
prop('P35', 'The backstop is replaced only by a larger one, after 31 days',
     'A swap of the backstop can be queued while none is queued, for a backstop that holds more of the current backstop token than the current one, and executed no earlier than 31 days later if that still holds; it sets exactly the queued backstop and token, once. A queued swap can be cancelled only when the new backstop is not larger any more, and is not replaced otherwise. No other operation changes the backstop, its token or the queued swap, and a swap that meets the conditions is not refused.',
     ['inputs', 'histories'], 'every pair of balances at each step, every time, sequences of queueing, cancellation and execution',
     'The comparison happens three times at different moments; ties and changes in between are not in the tests.',
     [EMB], [('comparison', EMB + ' is_new_backstop_is_larger'), ('queue, cancel, swap', EMB + ' execute_queue_swap_backstop, execute_cancel_swap_backstop, execute_swap_backstop')],
     [('Swap', 'queued swap', EMB), ('Backstop, BToken', 'current backstop and its token', 'emitter/src/storage.rs')])
prop('P36', 'A backstop hands out its initial drop once, at most 50 million tokens',
     'Only the current backstop can trigger its drop, once ever, also after it was replaced and came back; at most 50 million tokens in total are minted, to exactly the listed receivers in the listed amounts. A first drop within the limit is not refused. Nothing else records or forgets a drop.',
     ['inputs', 'histories'], 'lists of up to three entries (thorough: six) with any amounts, repeated receivers, repeated drops, drops after swaps',
     'The limit is on a sum over a list; tests use one list on each side.',
     [EMI], [('limit and record', EMI + ' execute_drop')], [('Dropped', 'backstops that have dropped', 'emitter/src/storage.rs')], observe=['minted tokens'])
prop('P37', 'The factory deploys valid pools for the asking admin and vouches for those only',
     'A deployment needs the admin\'s authorisation, a take rate below 1 and at least two positions; it deploys the factory\'s pool code and initialises it with exactly the admin, name, oracle, take rate and position limit asked for and the factory\'s own backstop and token. The factory recognises exactly the pools it deployed. A deployment by another admin or with another salt cannot take a pool\'s address, and the factory is initialised once.',
     ['inputs', 'histories'], 'every take rate and limit, two deployments in a row by equal and different admins with equal and different salts',
     'All contracts trust what the factory says about a pool; address collisions need two related deployments.',
     [PFC], [('deployment', PFC + ' deploy'), ('registry', PFC + ' is_pool')], [('Contracts', 'deployed pools', 'pool-factory/src/storage.rs')])
prop('P38', 'Backstop and emitter are set up once, as named, and keep their settings',
     'The backstop and the emitter are each initialised once, with exactly the named addresses; emissions count from the initialisation of the emitter, and the backstop starts from the last distribution the emitter reports. The backstop passes its drop list to the emitter as it was named. No other operation of the backstop changes its tokens, emitter, factory or drop list.',
     ['inputs', 'histories'], 'every initialisation with distinct addresses and drop lists of up to three entries, every other entry point afterwards',
     'A swapped pair of addresses is invisible to tests that use mocks for both; the negative is about all entry points.',
     [BCT, EMC], [('initialisation', BCT + ' initialize'), ('initialisation', EMC + ' initialize')],
     [('Emitter, BToken, PoolFact, BLNDTkn, USDCTkn', 'settings of the backstop', 'backstop/src/storage.rs')])
prop('P39', 'Entries that the ledger forgets live long enough for their purpose',
     'Ledger entries that expire for good are extended when they are written: an auction lives for at least a day, past the end of its price curve, a queued reserve configuration for at least two weeks, a week longer than its lock, and the drop list for at least the 31 days a swap of the backstop takes.',
     ['inputs', 'histories'], 'creation of all three types of auctions, queueing of new and existing reserves, initialisation of the backstop, at every ledger number',
     'The test ledger is configured with long minimum lifetimes, so a missing extension never shows.',
     ['pool/src/storage.rs', 'backstop/src/storage.rs'], [('lifetime of auctions and queued configurations', 'pool/src/storage.rs set_auction, set_queued_reserve_set'), ('lifetime of the drop list', 'backstop/src/storage.rs set_drop_list')])
prop('P40', 'What meets its conditions is not refused',
     'Operations whose conditions hold go through: repayments and withdrawals in every status, deposits and borrows of accounts with ample collateral in the statuses that allow them, a borrow that stays within the maximum utilisation, the transfer of bad debt, the creation of all three types of auctions at a fair percentage, administration with valid values, collection and claiming of emissions, and the backstop\'s deposits, queueing, dequeueing, withdrawals after the wait, draws and donations by pools. Each authorisation that an operation needs is asked for once.',
     ['inputs', 'histories'], 'ordinary magnitudes of amounts and balances, every status in which the operation is open, every valid setting',
     'Funds that cannot be moved are lost as surely as stolen ones; tests show that one value passes.',
     [SUB, 'pool/src/contract.rs', 'backstop/src/contract.rs'], [('lending requests', SUB + ' execute_submit'), ('auctions', 'pool/src/auctions/auction.rs create_liquidation, create_auction'), ('backstop operations', 'backstop/src/contract.rs')])
prop('P41', 'Contracts and the records they use are kept alive by use',
     'After every operation the contract that ran lives for at least 30 days, and every permanent record that the operation read for at least 45 days: those of accounts and deployed pools for at least 100. Four operations of the pool leave the contract itself to the next one: setting a queued reserve, the transfer of bad debt, the split of the emissions and the creation of a liquidation auction.',
     ['inputs', 'histories'], 'one operation of every kind of all four contracts, at every ledger number',
     'The test ledger keeps entries for a long time by default, so a missing or too short extension never shows; a contract that expires stops for everybody.',
     ['pool/src/storage.rs', 'backstop/src/storage.rs', 'emitter/src/storage.rs', 'pool-factory/src/storage.rs'], [('extension on use', 'pool/src/storage.rs extend_instance, get_persistent_default')])
prop('P42', 'Open auctions stay backed by what they sell',
     'While an auction is open, what it sells is there: the bid of a liquidation is at most the debt of its account and its lot at most the account\'s collateral, the bid of a bad debt auction is at most the backstop\'s debt, and the lot of an interest auction is at most the backstop\'s credit. Creation establishes this and no later operation breaks it: neither lending by the account or by others, nor a fill of a part, nor the creation of other auctions, administration or emissions. So a fill never pays out more than the backstop\'s credit, and no auction that nobody can fill is left behind to block the next one.',
     ['inputs', 'histories'], 'one operation of every kind in a pool with an open auction of each type over one or two assets, fills of every part at every age; creation with every accrual that is due; a changed take rate between creation and fill',
     'The tests fill auctions right after they create them; an auction that has lost its backing shows only in the operation after next, as a refusal.',
     ['pool/src/auctions/auction.rs', 'pool/src/auctions/bad_debt_auction.rs', 'pool/src/auctions/backstop_interest_auction.rs', 'pool/src/auctions/user_liquidation_auction.rs', SUB],
     [('creation and fills', 'pool/src/auctions/auction.rs create_auction, create_liquidation, fill'), ('writing off', 'pool/src/auctions/bad_debt_auction.rs fill_bad_debt_auction'), ('lending by a liquidated account', SUB + ' execute_submit')],
     [('Auction', 'open auctions', 'pool/src/storage.rs'), ('backstop_credit', 'the backstop\'s interest', RES)])
prop('P43', 'Events and answers report what was done',
     'Everyone who follows the contracts through their events and answers learns what was done. Every lending action is reported once, under its asset and account, with the tokens that moved net of a refund and the shares minted or burned; a fill with its account, kind, filler and part, and debt that is written off with its asset and amount; a transfer of bad debt with each liability; auctions, administration, status changes, new emission rates, deposits, queued and finished withdrawals, draws, donations, claims, distributions, backstop swaps, drops and deployed pools with what was stored, paid or minted. The answer of a call equals what it stored or paid, and a query answers what is stored and changes nothing.',
     ['inputs', 'histories'], 'one operation of every kind in each contract, two lending actions in one request list, and a query after each change; every amount, rate and time',
     'The tests hardly look at events, and compare answers for a few amounts only; a wrong amount in a rare branch (a capped withdrawal, a refunded repayment, the second pool of a claim) goes unseen.',
     ['pool/src/contract.rs', 'pool/src/pool/actions.rs', 'pool/src/pool/bad_debt.rs', 'pool/src/emissions/manager.rs', 'backstop/src/contract.rs', 'emitter/src/contract.rs', 'pool-factory/src/pool_factory.rs'],
     [('lending and fills', 'pool/src/pool/actions.rs build_actions_from_request'), ('administration and auctions', 'pool/src/contract.rs'), ('deposits and claims', 'backstop/src/contract.rs, backstop/src/emissions/claim.rs execute_claim')],
     [('Positions', 'accounts', 'pool/src/storage.rs'), ('UserBalance', 'depositors', 'backstop/src/storage.rs')])
prop('P44', 'A pool\'s tokens and loans cover its deposits and the backstop\'s credit',
     'In every reserve, the tokens the pool holds and the debt owed to it (at current rates, rounded up) together cover what it owes its depositors (at current rates, rounded down) and the backstop: no operation lowers what is left over, whatever amounts, roundings, refunds, caps and overdue accruals it involves. The only exception is the write-off of bad debt after a bad debt fill, which lowers it by at most the value of the debt that is written off.',
     ['inputs', 'histories'], 'one operation of every kind and lists of up to two lending requests (three in the thorough tier), with any accrual that is due, from every reserve state',
     'The tests compare balances after typical amounts, and the account of a whole reserve is never drawn up; a rounding in the wrong direction costs a unit at a time and can be repeated.',
     [SUB, RES, 'pool/src/pool/actions.rs', 'pool/src/auctions/backstop_interest_auction.rs', 'pool/src/auctions/bad_debt_auction.rs'],
     [('rounding of shares', RES + ' to_b_token_up/down, to_d_token_up/down'), ('accrual', RES + ' load'), ('transfers', SUB + ' execute_submit')],
     [('b_supply, d_supply, b_rate, d_rate, backstop_credit', 'the reserve', RES)])
