"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(observe),
            'hook_needed': hook,
        },
    })


ST, DS, FH, RP, MS, UT = ('arroba/storage.py', 'arroba/datastore_storage.py', 'arroba/firehose.py',
                          'arroba/repo.py', 'arroba/mst.py', 'arroba/util.py')
XR, XS, MC, DI, SV = ('arroba/xrpc_repo.py', 'arroba/xrpc_sync.py', 'arroba/memcache.py',
                      'arroba/did.py', 'arroba/server.py')

p('C01', 'A commit is all-or-nothing and durable across crashes and storage errors',
  'A commit to a repo stored in the datastore becomes visible completely (its records, tree nodes, signed commit and the repo\'s new head together) or not at all, whatever storage error, retry or process crash interrupts it. Once the commit call has returned successfully, every later reader in every process sees it, exactly once, and once it has failed with a definite error nothing of it is ever visible as a commit or event. A retried or crashed commit never yields two commits for one request.',
  ['crash_points', 'fault_sequences', 'schedules'],
  'every crash point between storage RPCs, every sequence of transient/ambiguous RPC errors, every interleaving of committers on several processes',
  'The datastore tests need an emulator and sample one fault-free execution each; none crashes a process or loses an RPC response inside a commit.',
  [DS, ST], [('commit runs in one datastore transaction', f'{DS}:DatastoreStorage._commit'),
             ('blocks and head written together', f'{ST}:Storage._commit')],
  [('AtpBlock/AtpRepo entities', 'durable blocks and head pointer', DS)],
  ['datastore contents', 'Storage.load_repo', 'read_events_by_seq'])

p('C02', 'Each repo has one linear, signed, strictly advancing commit history',
  'Starting from a repo\'s head and following previous-commit links yields exactly the successful commits to that repo, each once, with no fork, lost update or cycle. Along that chain revisions strictly increase (after an imported commit, whose revision is its author\'s, at least among the commits made here), every commit carries the repo\'s DID, a valid low-S signature by its signing key, and a data root whose content equals applying that commit\'s writes to its predecessor\'s content.',
  ['schedules', 'fault_sequences', 'histories'],
  'every interleaving of concurrent writers to the same repo from several threads and processes, with transaction conflicts and retries',
  'Existing tests commit from one thread only, so no stale head, lost update or reordered sequence number can arise.',
  [ST, DS, RP, UT], [('head reloaded inside the transaction', f'{ST}:Storage._commit'),
                     ('rev derived from sequence number', f'{ST}:Storage._commit'),
                     ('low-S signing', f'{UT}:sign')],
  [('repo.head', 'head commit CID', DS)], ['commit chain read back from storage'])

p('C03', 'Event sequence numbers are unique and monotonic',
  'Any two allocations of a sequence number for the same event stream return different positive numbers, and an allocation that starts after another returned gets a larger one, across threads, processes, process restarts, failed storage transactions and evictions of the shared cache. This holds for every provided sequence allocator; reading the last allocated number never yields less than a number whose allocation had already returned (unless the cache lost it).',
  ['schedules', 'crash_points', 'fault_sequences', 'configurations'],
  'every interleaving of allocators in several threads/processes, cache evictions and restarts, transaction aborts and ambiguous results, batch/buffer sizes',
  'The tests allocate a handful of numbers from one thread with mocked or absent backends.',
  [DS, ST], [('independent transaction per allocation', f'{DS}:DatastoreSequences.allocate'),
             ('cache counter bounded by datastore batch', f'{DS}:MemcacheSequences.allocate'),
             ('in-memory counter', f'{ST}:MemorySequences.allocate')],
  [('AtpSequence.next', 'durable upper bound', DS), ('max_seqs', 'per-process batch limit', DS)],
  ['return values of allocate/last'])

p('C04', 'Each firehose subscriber sees strictly increasing, duplicate-free real events',
  'On one firehose connection the sequence numbers strictly increase: nothing is repeated and nothing goes backwards, including at the hand-offs between history loaded from storage, the rollback window and live events. Every event delivered corresponds to a commit or account event that really happened with that sequence number, and every subscriber of the process that receives a given sequence number receives the same payload.',
  ['schedules', 'histories', 'fault_sequences', 'configurations'],
  'every interleaving of collector, committers and any number of subscribers connecting and disconnecting with any cursor, any window sizes, storage errors in between',
  'Tests drive one or two subscribers with hand-placed synchronisation; the interleavings of several subscribers merging history with live emission are not reachable by them.',
  [FH, XS], [('rollback window + lock', f'{FH}:subscribe'), ('collector refuses non-monotonic seqs', f'{FH}:Collector._collect')],
  [('rollback', 'shared window of recent events', FH), ('subscribers', 'live queues', FH)],
  ['events yielded by subscribeRepos'])

p('C05', 'The firehose misses nothing and keeps making progress',
  'A subscriber that stays connected receives every event at or after its cursor (or after its connection time if it gave none) within a bounded time once faults stop, provided the event became readable within the configured waiting period for skipped sequence numbers or its number was reported lost. Lost numbers, storage errors in the collector, slow or disconnected subscribers and events committed out of order delay others by at most the configured waiting period for each sequence number that is never used, and never stop the stream.',
  ['schedules', 'fault_sequences', 'histories', 'configurations'],
  'every interleaving of commits, lost sequence numbers, notifications, collector errors and subscriber arrivals, with any window sizes and waiting periods',
  'Tests check a few hand-picked gaps on a fixed schedule and never combine them with errors, concurrent subscribers or clock behaviour.',
  [FH, XS, ST], [('gap waiting', f'{FH}:Collector._collect'), ('restart after exception', f'{FH}:Collector.run'),
                 ('cursor hand-off', f'{FH}:subscribe')],
  [('lost_seqs', 'sequence numbers known lost', FH)], ['events yielded by subscribeRepos'])

p('C06', 'Commit events are self-contained and inductively verifiable',
  'Every commit event emitted on the firehose carries, in its block archive, the signed commit, every created or updated record and enough tree nodes to undo its operations and arrive exactly at the stated previous data root, and a consumer holding only the previous tree plus the event can rebuild the new tree. Its operations equal the difference between the two trees, with correct current and previous record CIDs.',
  ['histories', 'schedules'],
  'every history of multi-operation commits, including records and nodes that recur from earlier commits or other repos, served live, from the rollback window or from storage',
  'Tests compare a few fixed small repos; recurring blocks and multi-operation commits over deep trees depend on the history.',
  [FH, MS, ST], [('covering proofs', f'{MS}:MST.add_covering_proofs'), ('re-reading recurring blocks', f'{ST}:Storage.read_events_by_seq'),
                 ('prevData / prev CIDs', f'{FH}:process_event')],
  (), ['commit event payloads'])

p('C07', 'Inactive repos accept no commits, and status changes stick',
  'After a deactivation or tombstone of a repo has completed, no commit to it succeeds until it is reactivated, whichever process or previously loaded handle attempts it, and tombstoned repos are never reactivated. Each completed status change is durable, is reflected by the read APIs, and is announced by exactly one event whose content matches it; a change attempted on a tombstoned repo changes and announces nothing.',
  ['schedules', 'histories', 'fault_sequences'],
  'every interleaving of status changes with commits, reads and other status changes from several threads and processes holding stale handles',
  'Tests change status and write through the same object on one thread, so a stale handle or race never occurs.',
  [ST, DS, SV], [('status check before commit', f'{ST}:Storage._commit'), ('status stored transactionally', f'{DS}:DatastoreStorage._set_repo_status')],
  [('AtpRepo.status', 'durable status', DS)], ['commit outcomes', 'getRepoStatus/listRepos', 'account events'])

p('C08', 'Leases are mutually exclusive and always become available again',
  'At any instant at most one client holds a lease on a key, counting a holder from when acquiring returned until it releases or the lease\'s expiration passes, and a release never frees a lease that someone else now holds. A lease is always obtainable again after its holder releases it, crashes or lets it expire; an acquirer that gives up does so only after its configured number of retries.',
  ['schedules', 'crash_points', 'fault_sequences', 'configurations'],
  'every interleaving of contenders with stalls, response delays, crashes while holding, and expirations',
  'Tests use a mock memcache on one thread with fixed time.',
  [MC], [('atomic add with expiry', f'{MC}:Lease.acquire'), ('expiry check before delete', f'{MC}:Lease.release')],
  [('memcache key', 'lock token', MC)], ['acquire/release outcomes', 'memcache contents'])

p('C09', 'Record operations are linearizable',
  'Concurrent create, put, delete, get and list operations on a repo\'s records through the XRPC API behave as if executed one at a time in an order consistent with real time: a read returns the latest written value, deleted records are gone, and a write acknowledged to a client is never lost. An operation that fails with a definite error has no effect.',
  ['schedules', 'histories', 'fault_sequences'],
  'every interleaving of record operations from concurrent requests on several processes, with transaction conflicts and transient storage errors',
  'Tests issue requests one at a time.',
  [XR, ST, DS], [('transactional commit', f'{DS}:DatastoreStorage._commit'), ('read-then-commit handlers', f'{XR}:put_record')],
  (), ['XRPC request/response history'])

p('C10', 'Repo exports are complete, consistent snapshots',
  'A full repo export taken at any moment, during concurrent commits and under storage deferrals or transient errors, either fails or is an archive whose root is a commit that was the head at some instant during the request and whose blocks include exactly that commit\'s whole tree and all its records, each matching its CID. A single-record export likewise contains the head commit, the record and the tree path that proves the record is in that commit, and the heads and revisions that getHead, getLatestCommit and listRepos report were current at some instant during the request. An export since an earlier revision contains nothing else, and together with the tree at that revision makes the whole. With no faults, exports succeed.',
  ['schedules', 'fault_sequences', 'histories'],
  'every interleaving of exports with commits, deferred and partial lookups, transient errors, and any history of the repo',
  'Tests export fixed repos at rest, never with deferred lookups or concurrent writers.',
  [XS, MS, DS], [('breadth-first raw loading', f'{MS}:MST.load_all'), ('deferred keys re-fetched', f'{DS}:DatastoreStorage.read_many_raw')],
  (), ['CAR bytes of getRepo/getRecord/getBlocks'])

p('C11', 'All storage backends behave the same',
  'For any sequence of repo operations by one client, the datastore-backed and the in-memory storage give the same observable results: the same records, tree roots, heads\' content, event log and errors. Datastore RPC batching, deferral, transaction aborts and retries are invisible in those results.',
  ['histories', 'fault_sequences'],
  'every history of creates, commits, status changes, loads, listings and event-log reads, with transient aborts and deferrals on the datastore side',
  'The existing suites run separate fixed scenarios per backend and never compare them over random histories.',
  [ST, DS], [('shared Storage base class', f'{ST}:Storage'), ('datastore overrides', f'{DS}:DatastoreStorage')],
  (), ['return values of the Storage API'])

p('C12', 'Replaying the event log is exact from any starting point',
  'Reading the event log from any sequence number yields every commit and event that was durable before the read began, with number at or above the start, each exactly once, in ascending order, with its operations and previous commit, optionally restricted to one repo. This holds when the underlying query is split into batches, loses its context part-way, or runs concurrently with new commits.',
  ['schedules', 'fault_sequences', 'histories'],
  'every history, start position, repo filter, batch split, context loss point and concurrent commit',
  'Tests read short logs in one batch from one thread.',
  [ST, DS], [('grouping by seq', f'{ST}:Storage.read_events_by_seq'), ('re-query after context loss', f'{DS}:DatastoreStorage.read_blocks_by_seq')],
  (), ['read_events_by_seq / read_blocks_by_seq output'])

p('C13', 'Repo import is verified, atomic in effect, and never clobbers',
  'Importing an archive either yields a deactivated repo whose content equals the archive\'s tree, verified against the signing key in the DID document, or fails without creating or changing any repo. No corrupted, truncated, forged or concurrent upload, DID resolution failure or storage fault makes an existing repo, its event log or any stored block return different content than before.',
  ['inputs', 'fault_sequences', 'schedules', 'crash_points'],
  'every damaged or forged archive, every DID resolution outcome, every storage fault or crash during the import, concurrent imports and firehose readers',
  'Tests import one good archive and a few malformed ones, with nothing else running.',
  [XR, ST, DS, DI], [('signature and existence checks', f'{XR}:import_repo'), ('no overwrite of blocks', f'{DS}:DatastoreStorage.write_blocks')],
  (), ['loaded repos', 'block contents', 'event log'])

p('C14', 'Remote blob metadata stays true under concurrency and HTTP faults',
  'A remote blob\'s stored CID, size, type and media dimensions always describe one body actually served by its URL, it is refetched only when its age and type call for it, and it becomes inactive exactly when fetching conclusively failed; an inactive blob is never redirected to. Every repo that successfully registered a blob stays registered with it whatever else ran concurrently.',
  ['schedules', 'fault_sequences', 'histories'],
  'every interleaving of registrations, refetches and lookups with HTTP errors, changing bodies, timeouts and clock advance',
  'Tests run one call at a time against canned responses.',
  [DS, XS], [('transactional get-or-create', f'{DS}:AtpRemoteBlob.get_or_create'), ('refetch policy', f'{DS}:AtpRemoteBlob.maybe_fetch')],
  [('AtpRemoteBlob entity', 'blob metadata and registered repos', DS)], ['getBlob/listBlobs responses', 'stored entities'])

p('C15', 'Timestamp ids are unique and increasing within a process',
  'Successive ids generated in one process strictly increase, whatever threads request them and however the wall clock stalls, jumps or runs backwards, and never fall behind the wall clock.',
  ['schedules', 'fault_sequences'],
  'every interleaving of concurrent generators and every sequence of clock readings',
  'Tests generate ids from one thread with a frozen clock.',
  [UT], [('last-timestamp memory', f'{UT}:next_tid')], [('_tid_ts_last', 'last timestamp used', UT)], ['next_tid return values'])

p('C16', 'DID and handle resolution is fresh and failures are not sticky',
  'A DID or handle resolution returns a result that the authoritative source really served at most the cache lifetime (6 hours) before, and an unsuccessful resolution of a DID document is not remembered: the next attempt asks again. Concurrent resolutions never mix up results of different identifiers, DNS results take precedence over HTTPS for handles, and errors of one resolver never escape as wrong answers.',
  ['schedules', 'fault_sequences', 'histories'],
  'every interleaving of concurrent resolutions, expiries, document changes and DNS/HTTP failures',
  'Tests resolve once with a mocked response, with the cache cleared in between.',
  [DI], [('TTL caches', f'{DI}:resolve_plc'), ('DNS then HTTPS', f'{DI}:resolve_handle')], (), ['resolve/resolve_handle results'])

p('C17', 'PLC operations form a valid, correctly signed chain',
  'Every create, update or rollback of a did:plc sends at most one operation that the directory\'s rules accept: it is signed by a current rotation key, low-S, links to the latest operation it was based on, and an update keeps the handle and the aliases that the caller did not change, while a rollback restores an earlier operation that was not nullified; a create\'s DID is the hash of its own operation. When a request or response is lost, or another writer got there first, the caller gets an error or the true result, never a false success, and the directory\'s history stays valid.',
  ['fault_sequences', 'schedules', 'histories'],
  'every sequence of creates, updates and rollbacks by concurrent writers with lost or failed HTTP requests and responses',
  'Tests compare one canned request body each.',
  [DI, UT], [('operation construction and signing', f'{DI}:write_plc_operation'), ('prev from audit log', f'{DI}:update_plc')],
  (), ['operations received by the directory', 'returned DidPlc'])

p('C18', 'A repo\'s tree is canonical and fully readable for every history',
  'After any sequence of commits, the stored tree is the unique canonical tree for the resulting set of records, its root equals the head commit\'s data, and every node and record it references can be read back from storage with matching CIDs. Lookups, listings in key order and pagination over it return exactly the current records.',
  ['histories', 'fault_sequences'],
  'every history of creates, updates and deletes of any keys in single or multi-write commits, interrupted by failed commits and storage faults',
  'Tests cover fixed key sets and tree shapes, not arbitrary histories with persistence and reloads between commits.',
  [MS, ST, RP], [('tree mutation', f'{MS}:MST.add'), ('unstored blocks persisted', f'{MS}:MST.get_unstored_blocks')],
  (), ['stored blocks', 'get_record/get_contents/listRecords'])

p('C19', 'A failed operation leaves no trace',
  'When a commit is rejected (invalid record or key, missing or duplicate path, too many or too large writes, inactive repo) or fails with a storage error known not to have been applied, the repo\'s content, head, tree, status and event log, as seen through storage and through the caller\'s own handle, are exactly as before, on every backend. The sequence number it consumed is reported lost exactly once, and later operations on the same handle work normally.',
  ['histories', 'fault_sequences', 'inputs'],
  'every position at which a multi-write commit can be rejected or fail, on every backend, followed by any further operations',
  'Tests check that an error is raised, not that nothing else changed.',
  [ST, DS, RP], [('commit assembled before writing', f'{ST}:Storage._commit'), ('lost sequence callback', f'{ST}:Storage.commit')],
  (), ['storage contents and handle state before/after'])

p('C20', 'Only authorised and supported requests take effect',
  'A request that writes (createRecord, putRecord, deleteRecord, importRepo) without the bearer token that is configured at the time, or when none is configured, is refused; so is one that asks for an unsupported operation, precondition, collection or a repo that does not exist. A refused request leaves nothing behind: no record, block, event, repo or announced commit, and requests that are authorised and valid are not refused. Changing or removing the token takes effect at once. Reads need no token, except that full exports can be switched off for repos older than 12 hours and are then served only with the export token.',
  ['schedules', 'histories', 'configurations', 'fault_sequences'],
  'every order of requests with right, wrong, old and missing tokens, changes of token, ages of repos, configurations and storage faults',
  'Tests send single requests with one token to a fresh repo, and check the error rather than what it left behind.',
  [SV, XR, XS, 'arroba/xrpc_server.py'], [('auth', f'{SV}:auth'), ('validation', f'{XR}:validate'), ('export gate', f'{XS}:get_repo')],
  (), ['XRPC responses', 'stored rows'])

p('C21', 'A repo appears fully announced, and lookups find exactly what is there',
  'A new repo becomes visible to lookups only after its first commit and its identity, account and sync events, in that order and consistent with each other, are in the event log; once its creation is acknowledged it is there for good, with the handle and keys it was created with. Looking up a repo by DID or handle, its status, head or description, and paging through all repos with any page size, while repos are created, committed to and deactivated, finds every repo that was there throughout exactly once, none that never was, and reports heads and statuses that were current during the request.',
  ['schedules', 'crash_points', 'fault_sequences', 'histories'],
  'every interleaving of creations, commits, status changes, lookups and pages in several processes, every storage error and crash point',
  'Tests create a repo or two with no faults and list them at rest in one page or two.',
  [RP, DS, XS, ST], [('order of announcement', f'{RP}:Repo.create'), ('lookup and paging', f'{DS}:DatastoreStorage.load_repos')],
  (), ['listRepos, getRepoStatus, getHead, describeRepo', 'Storage.load_repo/load_repos'])

p('C22', 'The difference between two revisions names exactly what changed',
  'The computed difference between any two stored trees, of one repo or two, lists exactly the records that were added, updated (with the value they had) and deleted, the tree nodes that are no longer used, and at least every node and record that is new, nothing of it foreign to the later tree; the difference from nothing lists the whole tree. Combining the differences of two consecutive steps gives one that turns the first tree\'s records into the last one\'s. This holds while commits go on, for trees read lazily from a slow and failing datastore, and for trees that several threads share.',
  ['histories', 'schedules', 'fault_sequences'],
  'every pair of revisions of any histories, concurrent commits and comparisons, storage deferrals and errors',
  'Tests compare a few fixed in-memory trees from one thread.',
  ['arroba/diff.py', MS], [('diff walk', 'arroba/diff.py:mst_diff'), ('combining', 'arroba/diff.py:Diff.add_diff')],
  (), ['Diff.of, Diff.add_diff results'])

# Not decided by simulation: pure functions of their input.
p('N01', 'TID, base32-sortable, at-URI and did:key codecs round-trip',
  'Encoding then decoding a timestamp id, sortable base32 number, at:// URI or did:key returns the original value, and TID order equals time order.',
  ['inputs'], 'all values in range', 'Tests sample a few values; the property is over all of them.',
  [UT, DI], [('codecs', f'{UT}:int_to_tid')])
p('N04', 'Record keys and collections are accepted exactly per the tree key grammar',
  'A record path is accepted exactly when it has two non-empty segments of the allowed characters and at most 256 characters.',
  ['inputs'], 'all strings', 'Tests sample some strings.', [MS], [('ensure_valid_key', f'{MS}:ensure_valid_key')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
