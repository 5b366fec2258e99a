import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))
mb='contracts/core/mailbox/src/execute.rs'; mq='contracts/core/mailbox/src/query.rs'
p('C01','A message is delivered at most once',
 "A mailbox hands a given message to its recipient at most once, whatever sequence of process calls, relayers, metadata, re-entrant deliveries and configuration changes happens. A process attempt that fails for any reason leaves the message undelivered and retryable. The delivered query answers true exactly for the messages whose processing succeeded.",
 ['histories','inputs','schedules'],'every sequence of process calls (repeated, failed, re-entrant from the recipient) and ISM/owner changes',
 'The unit tests run one process call on a fresh mailbox with mocked queriers; no test delivers twice through a recipient that re-enters, or retries after a failed handle.',
 [mb,mq],[('already-delivered check and save before the recipient is called',mb+' process')],[('DELIVERIES','ids already delivered','contracts/core/mailbox/src/state.rs')],['Process outcome','recipient Handle calls','MessageDelivered query'])
p('C02','Only authenticated, correctly addressed messages are delivered, unaltered',
 "Processing succeeds only if the message carries the mailbox's version and names its domain as destination, and the ISM named by the recipient (or, when the recipient names none, the default ISM in force at that moment) accepts exactly that message together with exactly the supplied metadata; if the recipient's ISM cannot be obtained nothing is delivered. The recipient is then called by the mailbox once, with the message's origin, sender and body and without funds. The processing events report the message's id, origin, sender and recipient.",
 ['inputs','histories','configurations'],'every raw message (any version, nonce, domains, 20/32-byte addresses, body), metadata, recipient kind and default-ISM history',
 'Tests use one mock ISM that answers by a canned value and never check which ISM is consulted with which metadata, nor a failing specifier query.',
 [mb,mq,'packages/interface/src/types/message.rs','packages/interface/src/ism/mod.rs'],[('version/destination checks, ISM selection and verification',mb+' process'),('recipient ISM query','packages/interface/src/ism/mod.rs recipient')],[('CONFIG.default_ism','default ISM','contracts/core/mailbox/src/state.rs')],['Process outcome','ISM verify queries','recipient Handle calls','mailbox_process / mailbox_process_id events'])
p('C03','Dispatch commits to exactly the requested message with consecutive nonces',
 "Every successful dispatch produces a message with the protocol version, the next consecutive nonce (starting at 0), the local domain, the caller as left-padded sender, and the requested destination, 32-byte recipient and body, and that same message is what the hooks, the response, the latest-dispatched-id query and the dispatch events carry. A failed dispatch consumes no nonce and changes nothing. A recipient that is not 32 bytes is refused.",
 ['inputs','histories'],'every sequence of dispatches by 20- and 32-byte callers (re-entrant ones from hooks included), every domain, recipient, body length',
 'Tests dispatch once per fixture from short mock senders; consecutive nonces, nonce width and re-entrant dispatch are never exercised.',
 [mb,'packages/interface/src/types/message.rs','packages/interface/src/types/bech32.rs'],[('message construction and nonce increment',mb+' dispatch')],[('NONCE','next nonce','contracts/core/mailbox/src/state.rs'),('LATEST_DISPATCHED_ID','last id','contracts/core/mailbox/src/state.rs')],['mailbox_dispatch events','DispatchResponse','Nonce/LatestDispatchId queries','PostDispatch calls'])
p('C04','Dispatch pays the required hook its exact fee and the other hook the rest',
 "On every successful dispatch the required hook is called first with exactly the fee it quoted, then the hook chosen by the caller (or the default hook) is called with everything else the caller attached; both get the supplied metadata and the dispatched message, and the mailbox keeps nothing. If the attached funds do not cover the required fee in every denomination, the dispatch fails. A failure of either hook undoes the whole dispatch.",
 ['inputs','configurations','histories'],'every set of attached coins, multi-denomination fee, override/default hook choice and hook behaviour',
 'Tests only check the produced sub-messages for one denomination and at most one coin; balances and failure paths are not observed.',
 [mb,'packages/interface/src/hook/mod.rs'],[('required-fee deduction and two post_dispatch submessages',mb+' dispatch')],[],['hook PostDispatch calls and funds','balances after dispatch'])
p('C05','Paying the quoted dispatch fee is always sufficient',
 "For every composition of the supplied hooks (fee, gas paymaster, merkle, pausable, aggregate and routing hooks, nested), if quoting a dispatch succeeds and no involved hook is paused or rejects the metadata, then dispatching that message with exactly the quoted fees attached succeeds and the fees end up with the hooks that quoted them; paying less in any quoted denomination fails, unless an aggregate hook involved already holds coins left from an earlier overpayment. The mailbox quote is the sum, per denomination, of the required hook's quote and the chosen hook's quote.",
 ['configurations','inputs'],'every hook tree, fee/oracle configuration (zero fees included), metadata, domain and message',
 'Hook quote and hook payment are unit-tested separately, one hook at a time, with mocked children; no test pays a quote through a nested hook.',
 [mq,'contracts/hooks/aggregate/src/lib.rs','contracts/hooks/routing/src/lib.rs','contracts/hooks/routing-custom/src/lib.rs','contracts/hooks/routing-fallback/src/lib.rs','contracts/hooks/fee/src/lib.rs','contracts/igps/core/src/query.rs','contracts/igps/core/src/execute.rs'],
 [('mailbox quote','contracts/core/mailbox/src/query.rs quote_dispatch'),('per-hook quote and payment check','hooks and igp post_dispatch / quote_dispatch')],[],['QuoteDispatch query','Dispatch outcome','balances'])
p('C06','The merkle hook commits to dispatched messages in order',
 "The merkle hook's tree holds exactly the messages for which it was notified, in order, each of which was at that moment the mailbox's latest dispatched message; any other notification is refused and changes nothing. Its count, root, checkpoint (root with index count-1) and tree answers always are those of the standard depth-32 incremental tree over these ids, and each insertion reports the message id and its index.",
 ['histories','inputs'],'every sequence of dispatches (merkle required, default, override or absent) and of direct or stale notifications by anyone',
 'Tests insert one or a few fixed leaves with a mocked mailbox; order, repeated subtrees and stale ids over long histories are not covered.',
 ['contracts/hooks/merkle/src/lib.rs','packages/interface/src/types/merkle.rs'],[('latest-id check and insertion','contracts/hooks/merkle/src/lib.rs post_dispatch'),('incremental tree','packages/interface/src/types/merkle.rs')],[('MESSAGE_TREE','incremental tree','contracts/hooks/merkle/src/lib.rs')],['Count/Root/Branch/Tree/CheckPoint queries','post_dispatch and inserted_into_tree events'])
p('C07','Multisig ISM accepts exactly messages signed by a threshold of validators',
 "The multisig ISM accepts a message if and only if the metadata carries, with all of its signatures well-formed up to that point, signatures by at least the threshold number of distinct validators enrolled for the message's origin over the checkpoint digest of that origin, merkle-tree address, root, index and message id; signatures by others, over anything else, or repeated ones never count. Origins without configuration are never accepted. Only a threshold between 1 and the number of validators and 20-byte validators can be enrolled, and enrolling one origin never affects another.",
 ['inputs','histories','configurations'],'every validator set and threshold, every list of signatures (duplicates, foreign, wrong digest, malformed, order, trailing bytes), every (un)enrolment history',
 'Tests verify one fixed message with one fixed validator set.',
 ['contracts/isms/multisig/src/query.rs','contracts/isms/multisig/src/contract.rs','packages/interface/src/types/metadata.rs','packages/interface/src/types/crypto.rs'],
 [('signature counting','contracts/isms/multisig/src/query.rs verify_message'),('enrolment checks','contracts/isms/multisig/src/contract.rs')],[('VALIDATORS','validators per origin','contracts/isms/multisig/src/state.rs'),('THRESHOLD','threshold per origin','contracts/isms/multisig/src/state.rs')],['Verify','VerifyInfo','EnrolledValidators'])
p('C08','Aggregate ISM accepts exactly when enough of its ISMs accept',
 "The aggregate ISM accepts a message only if at least its threshold of distinct configured ISMs each accept that message with their own slice of the metadata, and it does accept when all of them answer and enough accept. Its threshold is always between 1 and the number of configured ISMs, whether set at creation or later.",
 ['inputs','configurations','histories'],'every ISM list and order, threshold, per-ISM metadata ranges and verdicts, reconfiguration history',
 'The aggregate ISM has no contract-level test at all.',
 ['contracts/isms/aggregate/src/lib.rs','packages/interface/src/types/metadata.rs'],[('threshold countdown','contracts/isms/aggregate/src/lib.rs verify'),('metadata ranges','packages/interface/src/types/metadata.rs AggregateMetadata')],[('ISMS','sub-ISMs','contracts/isms/aggregate/src/lib.rs'),('THRESHOLD','threshold','contracts/isms/aggregate/src/lib.rs')],['Verify','Isms','VerifyInfo'])
p('C09','Routing ISM defers to exactly the ISM routed for the origin',
 "The routing ISM answers, for every message and metadata, exactly what the ISM currently routed for the message's origin domain answers for that same message and metadata, both for verification and for verification info. When no ISM is routed for the origin, or the routed one fails, verification fails. The route answer names that ISM.",
 ['inputs','histories','configurations'],'every origin, route-table history (set, reset, unset) and sub-ISM verdict',
 'Tests cover two fixed routes with a mocked querier; verification info and unset-then-reset histories are not tested.',
 ['contracts/isms/routing/src/contract.rs'],[('lookup by origin','contracts/isms/routing/src/contract.rs query')],[('MODULES','origin to ISM','contracts/isms/routing/src/state.rs')],['Verify','VerifyInfo','Route'])
p('C10','Routing hooks hand message, metadata and funds to exactly the selected hook',
 "A routing hook passes each notified message, its metadata and all attached funds to one hook: the one registered for the exact (destination, recipient) pair if the custom variant has one, else the one routed for the destination domain, else (fallback variant only) the fallback hook, and fails if there is none; it keeps nothing. Quotes come from that same hook for that same message and metadata. The registered-custom-hook listing shows exactly the current registrations.",
 ['inputs','histories','configurations'],'every route / custom-registration history, message, metadata and attached funds for the three variants',
 'Tests use empty funds and mocked children, and one or two routes.',
 ['contracts/hooks/routing/src/lib.rs','contracts/hooks/routing-custom/src/lib.rs','contracts/hooks/routing-fallback/src/lib.rs'],[('route selection','route() in each hook'),('forwarding','post_dispatch in each hook')],[('CUSTOM_HOOKS','(domain, recipient) to hook','contracts/hooks/routing-custom/src/lib.rs'),('FALLBACK_HOOK','fallback','contracts/hooks/routing-fallback/src/lib.rs')],['child PostDispatch calls','QuoteDispatch','CustomHook(s) queries'])
p('C11','Aggregate hook notifies every hook once, each with exactly its quote',
 "On every notification the aggregate hook calls each of its configured hooks exactly once, in the configured order, with the same message and metadata and exactly the fee that hook quotes. Its own quote is the per-denomination sum of those quotes. It fails as a whole if any of the hooks fails or the coins it holds, the attached ones included, cannot cover the quotes.",
 ['inputs','configurations','histories'],'every hook list (reconfigured, empty, repeated), multi-denomination fees, metadata and attached funds',
 'The aggregate hook has no contract-level test.',
 ['contracts/hooks/aggregate/src/lib.rs'],[('fan-out','contracts/hooks/aggregate/src/lib.rs post_dispatch')],[('HOOKS','ordered hook list','contracts/hooks/aggregate/src/lib.rs')],['child PostDispatch calls','QuoteDispatch','Hooks query'])
p('C12','The gas paymaster charges exactly the quote and refunds the rest',
 "For every payment (direct or via dispatch) the paymaster keeps exactly floor(gas x price x rate / 10^10) of the gas token for the destination's current oracle data, refunds every excess unit to the refund address (metadata's, else the message sender; the named one for direct payments), and rejects smaller or foreign-denomination payments; the gas amount is the metadata's, else the domain's configured value, else the default. Quotes and the payment event report these same numbers. Only the beneficiary can claim, and a claim moves the whole gas-token balance to it.",
 ['inputs','histories'],'all gas amounts, prices and rates up to overflow, metadata shapes (0..31, 32, 52, 64 and more bytes), refund addresses and payments',
 'Tests use a handful of round numbers; flooring, 64/128-bit boundaries, metadata lengths and real balances are not covered.',
 ['contracts/igps/core/src/execute.rs','contracts/igps/core/src/query.rs','packages/interface/src/types/metadata.rs'],[('payment check and refund','contracts/igps/core/src/execute.rs pay_for_gas'),('quote arithmetic','contracts/igps/core/src/query.rs quote_gas_price')],[('BENEFICIARY','who may claim','contracts/igps/core/src/lib.rs')],['QuoteGasPayment/QuoteDispatch','balances','igp-core-pay-for-gas event'])
p('C13','Gas configuration and oracle data answer the last accepted setting',
 "The gas limit in force for a domain is its last set and not since unset override, else the default; the oracle data in force is the last accepted setting for that domain, and settings with a zero exchange rate are never accepted. Oracle data is read from the oracle currently routed for the domain, and domains without an oracle or without data fail to quote. Listings are in domain order and complete under pagination.",
 ['histories','inputs'],'every interleaving of owner settings over domains up to 2^32-1, batch settings with repeated domains, and queries',
 'Tests set once and read back.',
 ['contracts/igps/core/src/execute.rs','contracts/igps/core/src/lib.rs','contracts/igps/core/src/query.rs','contracts/igps/oracle/src/contract.rs','contracts/igps/oracle/src/state.rs'],[('override or default','contracts/igps/core/src/lib.rs get_default_gas'),('zero-rate check','contracts/igps/oracle/src/contract.rs')],[('GAS_FOR_DOMAIN','overrides','contracts/igps/core/src/lib.rs'),('REMOTE_GAS_DATA','price and rate','contracts/igps/oracle/src/state.rs')],['GasForDomain, ListGasForDomains, DefaultGas, GetExchangeRateAndGasPrice'])
p('C14','Warp transfers conserve value across chains',
 "For a pair of enrolled warp routes with honest message delivery, the amount locked in the collateral route always equals the remote supply plus amounts in flight in either direction, for native and cw20 tokens alike: sending locks or burns exactly the stated amount, delivery mints or releases exactly that amount to exactly the stated recipient, once. A transfer that fails (insufficient funds or allowance, bad recipient, missing route, amount too large) moves nothing. Coins attached beyond the amount are handed on to the mailbox dispatch and never stay with the route.",
 ['histories','inputs','schedules'],'every interleaving of transfers by several users in both directions and deliveries in any order, all amounts to 2^128-1, recipients of any length',
 'Tests inspect the messages one call returns; no test runs a transfer through two routes or checks a balance.',
 ['contracts/warp/native/src/contract.rs','contracts/warp/cw20/src/contract.rs','contracts/warp/native/src/conv.rs','contracts/warp/cw20/src/conv.rs','packages/interface/src/warp/mod.rs'],[('lock/burn and dispatch','transfer_remote'),('mint/release','mailbox_handle')],[('TOKEN','denom or cw20','contracts/warp/*/src/lib.rs'),('MODE','bridged or collateral','contracts/warp/*/src/lib.rs')],['balances and supply','dispatched body','TransferRemote outcome'])
p('C15','Only the mailbox and the enrolled remote router can release warp tokens',
 "A warp route mints or releases tokens only when called by its mailbox with a message whose sender equals, byte for byte, the router currently enrolled for the message's origin domain; a different caller, origin, sender, or an unset route moves nothing. An outgoing transfer is addressed to exactly the enrolled router of its destination and through the hook the caller named, else the configured hook. The route's answers for ISM, hook, connection mailbox and token give what was last configured.",
 ['inputs','histories','configurations'],'every caller, origin, sender, route history (set, replaced, unset) and connection setting',
 'Tests call the handler three times with one route; replaced and unset routes are not tested.',
 ['contracts/warp/native/src/contract.rs','contracts/warp/cw20/src/contract.rs','packages/router/src/lib.rs','packages/connection/src/lib.rs'],[('caller and route checks','mailbox_handle'),('route and hook selection','transfer_remote')],[('ROUTES','domain to router','packages/router/src/lib.rs')],['Handle outcome','balances','IsmSpecifier, connection and token queries'])
p('C16','Only the current owner can administer, and ownership moves in two steps',
 "In every contract every administrative operation succeeds only for the current owner, and anyone else's attempt changes nothing. Ownership changes only when the current owner nominates an account, does not revoke the nomination, and that account claims; only the owner nominates or revokes, at most one nomination is pending, only the nominee can claim, and claiming clears the nomination. The owner set at creation is the one requested.",
 ['histories','inputs','configurations'],'every sequence of nominate/revoke/claim/admin operations by every account, over every contract of the system',
 'The ownable package is tested in isolation with canned states; each contract checks one unauthorized caller on some operations, and several admin operations are untested.',
 ['packages/ownable/src/lib.rs','packages/router/src/lib.rs','packages/pausable/src/lib.rs','packages/connection/src/lib.rs',mb,'contracts/igps/core/src/execute.rs','contracts/igps/oracle/src/contract.rs','contracts/isms/multisig/src/contract.rs','contracts/isms/aggregate/src/lib.rs','contracts/isms/routing/src/contract.rs','contracts/hooks/fee/src/lib.rs','contracts/hooks/aggregate/src/lib.rs','contracts/hooks/routing-custom/src/lib.rs','contracts/hooks/routing-fallback/src/lib.rs'],[('owner checks','every admin handler'),('two-step transfer','packages/ownable/src/lib.rs')],[('OWNER','current owner','packages/ownable/src/lib.rs'),('PENDING_OWNER','nominee','packages/ownable/src/lib.rs')],['outcome of admin calls','owner and pending-owner queries'])
p('C17','Pausing stops a pausable hook or ISM until released',
 "While paused, a pausable hook fails every notification and a pausable ISM never accepts; while not paused, the hook accepts every notification and the ISM accepts every message. The state changes only by the owner's pause (when running) and release (when paused), any other attempt fails and changes nothing, and the paused query and creation setting reflect it.",
 ['histories'],'every sequence of pause/release by any account interleaved with uses and ownership changes, both initial settings',
 'Tests set one flag and call once.',
 ['packages/pausable/src/lib.rs','contracts/hooks/pausable/src/lib.rs','contracts/isms/pausable/src/lib.rs'],[('pause flag checks','post_dispatch / verify')],[('PAUSED','flag','packages/pausable/src/lib.rs')],['PostDispatch outcome','Verify','pause_info query'])
p('C18','Validator announcements are authentic, unique and complete',
 "An announcement is recorded only if its signature was made by the announced 20-byte validator over exactly that storage location, this chain's domain and this mailbox, and the same (validator, location) pair is recorded at most once. Each validator's locations are listed completely, in announcement order, and never change otherwise. The announced-validator list names exactly the validators with a recorded announcement.",
 ['histories','inputs'],'every sequence of announcements over validators, locations (prefixes of each other, empty, long), signatures of other keys/locations/domains/mailboxes, malformed signatures',
 'Tests announce a fixed recorded vector once.',
 ['contracts/core/va/src/contract.rs','packages/interface/src/types/crypto.rs'],[('signature and replay checks','contracts/core/va/src/contract.rs announce')],[('REPLAY_PROTECTION','announced pairs','contracts/core/va/src/state.rs'),('STORAGE_LOCATIONS','locations','contracts/core/va/src/state.rs')],['Announce outcome','GetAnnounceStorageLocations, GetAnnouncedValidators'])
p('C19','Route tables answer the last setting and page completely in order',
 "For every contract with a domain route table, looking up a domain gives the last route the owner set for it (none if never set or last unset), independent of other domains, single and batch setting being equivalent. Listings are in ascending (or, when asked, descending) domain order, start strictly after the offset, return at most the limit (10 by default) and refuse limits above 30, so that successive pages enumerate every listed domain exactly once.",
 ['histories','inputs'],'every set/unset history over domains 0..2^32-1 and every offset/limit/order',
 'Tests check a few offsets on a five-element table of small consecutive domains.',
 ['packages/router/src/lib.rs','packages/interface/src/lib.rs','packages/interface/src/router.rs'],[('set/get/list','packages/router/src/lib.rs'),('pagination options','packages/interface/src/lib.rs range_option')],[('ROUTES','domain to route','packages/router/src/lib.rs')],['GetRoute, ListRoutes, Domains queries'])
p('C20','The fee hook charges its fee and only the owner can withdraw it',
 "The fee hook accepts a notification exactly when the only attached coin is of the fee's denomination and at least the current fee (no coin being needed for a zero fee), and its quote is that fee. Collected coins leave it only by an owner's claim, which moves its whole balance, in every denomination, to the named recipient or else the owner. A fee change applies to the following notifications.",
 ['histories','inputs'],'every sequence of fee settings (zero and up to 2^128-1, several denominations), notifications with any coins, and claims by anyone',
 'Tests use one denomination, amounts 100/99, and a mocked balance.',
 ['contracts/hooks/fee/src/lib.rs'],[('payment check','contracts/hooks/fee/src/lib.rs execute PostDispatch'),('claim','contracts/hooks/fee/src/lib.rs execute Claim')],[('COIN_FEE','current fee','contracts/hooks/fee/src/lib.rs')],['PostDispatch outcome','QuoteDispatch, Fee queries','balances'])
p('C21','Migration only ever upgrades the same contract and preserves state',
 "Migrating any contract succeeds only if the stored contract name is its own and the stored version is strictly older in semantic-version order than the code's, and then records the code's version. A refused migration changes nothing, and an accepted one preserves every answer the contract gave before.",
 ['histories','inputs','configurations'],'every contract, stored name and stored version (numeric vs lexicographic order, pre-releases), before and after use',
 'One unit test of the helper with two versions; no contract entry point is exercised.',
 ['packages/utils/src/lib.rs','contracts/core/mailbox/src/contract.rs','contracts/igps/core/src/contract.rs','contracts/warp/native/src/contract.rs'],[('name and version check','packages/utils/src/lib.rs migrate')],[('contract_info','name and version','cw2')],['migrate outcome','queries before and after'])
p('C22','End to end, only what was dispatched is delivered, and all of it can be',
 "Between two chains whose mailboxes, hooks and ISMs are composed from this repository: as long as fewer than the threshold of the enrolled validators sign anything but messages the origin mailbox dispatched, the destination mailbox delivers only messages the origin dispatched, byte for byte, on the chain they name, each at most once, and hands them to the recipient with the true origin, sender and body. Every dispatched message a threshold has signed is delivered on request, whatever was dispatched or delivered before or in between, if its recipient accepts and no ISM or route on its way is paused or removed.",
 ['histories','inputs','configurations','schedules'],'every interleaving of dispatches, deliveries and owner calls on two chains; every tree of hooks and ISMs over both mailboxes; every signature set a relayer can assemble from signed and forged messages',
 'No test has two chains or a real ISM behind a mailbox: each contract is tested alone, with mocks for its neighbours.',
 ['contracts/core/mailbox/src/execute.rs','contracts/isms/multisig/src/query.rs','contracts/isms/aggregate/src/lib.rs','contracts/isms/routing/src/contract.rs','contracts/hooks/merkle/src/lib.rs','contracts/hooks/aggregate/src/lib.rs','contracts/warp/native/src/contract.rs','contracts/warp/cw20/src/contract.rs','packages/interface/src/types/message.rs'],
 [('dispatch','contracts/core/mailbox/src/execute.rs dispatch'),('delivery','contracts/core/mailbox/src/execute.rs process'),('verification','contracts/isms/multisig/src/query.rs verify_message'),('encoding','packages/interface/src/types/message.rs Message')],
 [('deliveries','identifiers delivered','hpl-mailbox DELIVERIES'),('validators','validators and threshold per origin','hpl-ism-multisig VALIDATORS')],['outcome of process','dispatch and process events','the call the recipient receives','message_delivered'])
p('C23','Contracts are set up exactly as asked, and say truthfully what they are',
 "Instantiating a contract either fails and creates nothing or yields a contract that answers exactly what was asked: owner (with no transfer pending), domain, address prefix, mailbox, beneficiary, default gas, fee, pause state, hooks, ISMs and threshold, routes, token type and mode. Invalid addresses, thresholds of zero or above the number of ISMs, prefixes that are not lowercase letters (mailbox, gas paymaster) and a validator announce over something that is no mailbox are refused. A bridged cw20 route creates a token with the name, symbol, decimals and balances asked for and itself as the only minter, uncapped, whatever minter was asked for; a bridged native route creates its denomination and sets the metadata asked for on it. What identifies a contract (prefix, local domain, mailbox of announce and merkle hook, module type of an ISM, token and mode of a route, minter of its token) never changes afterwards.",
 ['inputs','configurations','histories'],'every kind of contract, every instantiation message (valid and invalid addresses, prefixes, thresholds, token set-ups, metadata), and every later history of administrative calls',
 'Tests instantiate each contract with one valid message; none sets denomination metadata, a foreign minter or initial balances, or asks again after further calls.',
 ['contracts/core/mailbox/src/contract.rs','contracts/core/va/src/contract.rs','contracts/warp/cw20/src/contract.rs','contracts/warp/native/src/contract.rs','contracts/warp/native/src/conv.rs','contracts/warp/native/src/proto.rs','contracts/igps/core/src/contract.rs','contracts/isms/aggregate/src/lib.rs'],
 [('instantiation','instantiate of each contract'),('token creation','contracts/warp/cw20/src/contract.rs instantiate, reply'),('denomination metadata','contracts/warp/native/src/conv.rs to_set_metadata_msg')],
 [('CONFIG','prefix and local domain','hpl-mailbox CONFIG'),('TOKEN, MODE','token and mode of a warp route','contracts/warp')],['outcome of instantiate','chain messages of instantiate','answers of all queries'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
