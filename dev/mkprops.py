"""Writes /verif/properties.jsonl (kept as a script because JSON lines are hard to edit)."""
import json, os
PROPS = []
S = "server/devpi_server/"
def P(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook))
    assert len(title) <= 80, title
    PROPS.append(d)

P("K01", "A server transaction is all or nothing and reports its outcome",
  "Whatever happens inside a state changing request, import step or background transaction, either all of its changes become visible together under one new serial or none of them do: an exception, or a transaction declared unwanted before its end, leaves keys, changelog, files and serial as they were. Callbacks asked for on success run only after the changes are durable, and callbacks asked for at the end of a transaction run on every outcome, including a failing commit. A finished transaction releases its storage connection and is never left bound to the thread that ran it.",
  ["inputs", "fault_sequences", "schedules"],
  "every sequence of key operations in a transaction, with an exception of any kind surfacing at any call inside of the body, of the commit or of the rollback",
  "Tests run some failing bodies; they do not raise out of each call of commit, rollback, listener and storage code, so a path which skips the rollback, the close or the listeners is not reached.",
  [S+"keyfs.py", S+"keyfs_sqlite.py", S+"keyfs_sqlite_fs.py", "postgresql/devpi_postgresql/main.py", S+"views.py"],
  [("transaction scope: commit on normal end, roll back on any exception", S+"keyfs.py KeyFS._transaction, read_transaction, write_transaction, commit_transaction_in_thread, rollback_transaction_in_thread"),
   ("Transaction life cycle", S+"keyfs.py Transaction.commit/rollback/doom/_close/_run_listeners/restart"),
   ("storage writer commits or rolls back on exit", S+"keyfs_sqlite.py Writer.__exit__, postgresql/devpi_postgresql/main.py Writer.__exit__"),
   ("one transaction per request", S+"views.py tween_keyfs_transaction")],
  [("Transaction.cache/dirty", "uncommitted values and which keys changed", S+"keyfs.py"), ("Writer.changes", "records of the pending serial", S+"keyfs_sqlite.py")],
  ["GET of changed resources after failed requests", "+changelog serials"])

P("K02", "A crash never loses committed files nor exposes uncommitted ones",
  "With files kept on the filesystem, a file that belongs to a change only appears under its final name, is replaced or is removed after the database commit which records that change, and before that commit nothing but temporary names is touched. Every rename still outstanding after a crash is recorded in the committed change itself and is completed at the next start before requests are served. A temporary file of a change which did not commit is never promoted to its final name, and the state files which tell how far the server got are replaced atomically.",
  ["crash_points", "fault_sequences"],
  "a crash or I/O error between any two steps of a commit or rollback, for any mix of written, rewritten and deleted files, followed by any number of restarts",
  "Tests call the rename helpers on prepared directories; none stops the process between two statements of the commit, so the order of the statements is not observable to them.",
  [S+"keyfs_sqlite.py", S+"keyfs_sqlite_fs.py", S+"filestore_fs.py", S+"fileutil.py", S+"keyfs.py", S+"config.py"],
  [("order of commit steps", S+"keyfs_sqlite.py Writer.commit; keyfs_sqlite_fs.py Connection._write_dirty_files"),
   ("renames recorded with the change and replayed", S+"filestore_fs.py make_rel_renames, commit_renames, check_pending_renames; keyfs_sqlite_fs.py perform_crash_recovery"),
   ("temporary names", S+"filestore_fs.py tmpsuffix_for_path, keyfs_sqlite_fs.py DirtyFile"),
   ("atomic state files", S+"fileutil.py write_int_to_file; config.py write_nodeinfo")],
  [("rel_renames", "renames of a serial, stored in the changelog entry", "changelog table")],
  ["files below +files after restart"])

P("K03", "Serials are assigned exclusively, in order, and never reused",
  "Each committed change gets a serial higher than every earlier one, and that serial is determined only while the exclusive right to write to the storage is held. A change from a primary is only applied when its serial is exactly the next one, otherwise nothing is applied. Waiting for a serial only reports success once that serial is committed.",
  ["schedules", "histories"],
  "all interleavings of concurrent writers, replication and import on each storage backend",
  "Tests write from one thread at a time, so reading the last serial outside of the lock gives the same answer in every test.",
  [S+"keyfs.py", S+"keyfs_sqlite.py", "postgresql/devpi_postgresql/main.py", S+"replica.py"],
  [("write lock before reading the last serial", S+"keyfs_sqlite.py BaseStorage.get_connection, Writer.__enter__; postgresql/devpi_postgresql/main.py Writer.__enter__"),
   ("import checks next serial", S+"keyfs.py KeyFS.import_changes"),
   ("wait for serial", S+"keyfs.py KeyFS.wait_tx_serial")],
  [("changelog.serial", "committed serials", "changelog table")],
  ["+changelog", "X-DEVPI-SERIAL"])

P("K04", "Readers see one state and cannot alter shared data",
  "Values read in a transaction are those of the serial at which it started plus its own pending changes, no matter what other transactions commit meanwhile. Data handed out for reading is deeply read only, data handed out for change is a private deep copy, and what enters the shared caches or the changelog is detached from objects the caller keeps. Only a write transaction can record a change, and an unmodified value is not recorded as a change.",
  ["schedules", "histories", "programs"],
  "all interleavings of readers and writers, and every piece of code which mutates what it got from a read",
  "A leaked mutable reference needs a particular later mutation and a cache hit in another transaction; single threaded tests rarely do both.",
  [S+"keyfs.py", S+"keyfs_types.py", S+"readonly.py", S+"keyfs_sqlite.py", "postgresql/devpi_postgresql/main.py"],
  [("read only views and private copies", S+"keyfs.py Transaction.get/get_mutable/get_original/set/delete; readonly.py ensure_deeply_readonly, get_mutable_deepcopy"),
   ("changelog cache", S+"keyfs_sqlite.py BaseConnection.get_changes; Writer.record_set"),
   ("snapshot at serial", S+"keyfs.py Transaction.__init__/get_value_at/iter_relpaths_at")],
  [("_changelog_cache", "changes by serial shared by all threads", S+"keyfs_sqlite.py")],
  ["values returned by key.get() in concurrent transactions"])

P("K05", "Stored data reads back equal and unstorable data is refused",
  "Every value the server stores, exports over replication or puts in its state files reads back equal in value and in type, for each type it accepts; a value of any other type is refused when writing instead of being altered. The types that can be serialised, frozen for reading, copied for writing and declared for keys are the same. Key names and stored names map back to the same key and parameters.",
  ["inputs"],
  "all values built from the supported types, nested arbitrarily",
  "Tests round trip some sample values; they do not tie the tables of writer, reader, freezer and copier to each other.",
  [S+"fileutil.py", S+"readonly.py", S+"keyfs_types.py", S+"keyfs.py"],
  [("dump and load opcode tables", S+"fileutil.py _Dumper/_dispatch, Unserializer/num2func"),
   ("freeze and copy tables", S+"readonly.py ensure_deeply_readonly, get_mutable_deepcopy, is_deeply_readonly"),
   ("key patterns", S+"keyfs_types.py PTypedKey")],
  (), ["dumps()/loads()"])

P("K06", "Every committed change is notified in order and not skipped",
  "Subscribers of changes get each committed serial in ascending order with at least one delivery, also across restarts: a serial only counts as handled after all of its subscribers ran and the files it needs are there, and it is never marked handled before. A failing subscriber neither keeps the others from running nor stops later notifications. A shutdown request ends the notification without marking the interrupted serial as handled.",
  ["histories", "crash_points", "fault_sequences", "schedules"],
  "all commit histories, failing subscribers, missing files and stops at any point of the notification loop",
  "Tests observe a few notifications in a running server; the crash between running subscribers and recording progress is not exercised.",
  [S+"keyfs.py", S+"replica.py"],
  [("event loop", S+"keyfs.py TxNotificationThread.thread_run/tick/_execute_hooks/write_event_serial/read_event_serial"),
   ("wake up on commit", S+"keyfs.py KeyFS.notify_on_commit/import_changes; storage notify_on_commit")],
  [(".event_serial", "last handled serial", "server directory")],
  ["hooks and index state after restart"])

P("K07", "A replica never writes on its own and hands changes to the primary",
  "On a replica no request, hook or background task starts a transaction that writes: all state comes from applying the primary's changes. Requests which change state are forwarded to the primary, and once the primary committed them, the answer is only returned after the replica has caught up with that commit. Whether a node is a replica is decided by its configured role alone, and every node role test gives that answer.",
  ["configurations", "inputs", "schedules"],
  "all requests and background tasks on a node in the replica role",
  "Tests run few views on a replica; a view or task that forgets the distinction works in the many primary tests.",
  [S+"replica.py", S+"views.py", S+"main.py", S+"mirror.py", S+"model.py", S+"keyfs.py"],
  [("read only key store on replicas", S+"keyfs.py KeyFS.begin_transaction_in_thread/restart_as_write_transaction; main.py XOM.keyfs"),
   ("tween picks the transaction kind", S+"views.py tween_keyfs_transaction"),
   ("proxying view deriver and waiting", S+"replica.py proxy_view_to_primary, proxy_write_to_primary, ..."),
   ("role tests", S+"main.py XOM.is_replica/is_primary")],
  (), ["changelog of a replica against the primary's"])

P("K09", "Only authenticated replicas and primaries take part in replication",
  "The primary answers requests for changes and files for replication, which it only does with the role of a primary, only when they come from a replica that proved to know the shared secret with a fresh signed token for its own identity, and nothing is read before that is checked; the age of such a token is checked by the signing library and its content compared in constant time with the identity sent. Login tokens and replication tokens are signed with different keys, and a secret file is only used when nobody else can read it. The identity of a replica is only given to requests with such a token. A replica only applies changes from the primary whose identity it recorded and refuses any other. A node never turns from another role into a replica, nor changes the identity of its primary, by mere configuration.",
  ["inputs", "configurations"],
  "all requests to the replication resources and all role/identity histories of a node",
  "Tests send a good token and few bad ones; a resource added without the check is not tried without token.",
  [S+"replica.py", S+"config.py", S+"views.py"],
  [("token check on each replication resource", S+"replica.py PrimaryChangelogRequest.verify_primary/..; "),
   ("primary identity", S+"replica.py ReplicaThread.thread_run/fetch_*; config.py set_primary_uuid, _change_role"),
   ("derived secrets", S+"config.py get_replica_secret...")],
  (), ["+changelog and +changelog streaming responses"])

P("K10", "A refused request changes nothing",
  "When the server answers a request with an error status, none of the changes it made on the way are kept. This includes uploads of several parts, pushes and requests that create users or indexes on the way and then fail a later check. (What a mirror learned about its upstream, and a password hash brought up to date by a login, may stay.)",
  ["inputs", "histories"],
  "all inputs for which a state changing request ends with an error status after having made some change",
  "Tests of error answers check the status; few look whether an earlier step of the same request was kept, and the steps before the error depend on the history.",
  [S+"views.py", S+"main.py"],
  [("dooming error answers", S+"main.py fatal/Fatal apifatal; views.py abort_submit, apireturn"),
   ("transaction per request", S+"views.py tween_keyfs_transaction")],
  (), ["state after a request answered with status >= 400"])

P("F01", "Only complete, verified file content is stored and served",
  "A file mirrored from another server, replicated from a primary or imported is only stored when its content has the hash and size that was announced for it, and content that fails that check is neither stored nor kept under the file's final name. Stored metadata always gets the hashes computed from the very content stored, and a file already there is only taken instead of a download when its hash is the announced one. A download from another server which breaks off or does not match ends as an error for the client and is not taken as good; a replica tries again to get files it could not fetch.",
  ["inputs", "fault_sequences"],
  "all contents, announced hashes of any supported type and transfers that break off at any chunk",
  "Tests use matching content and a few mismatches; each of the several store paths needs its own check on every path to the store.",
  [S+"filestore.py", S+"views.py", S+"mirror.py", S+"replica.py", S+"importexport.py"],
  [("content and hash set together", S+"filestore.py MutableFileEntry.file_set_content, BaseFileEntry.validate"),
   ("streaming with verification", S+"views.py FileStreamer, iter_cache_remote_file, iter_fetch_remote_file"),
   ("replica fetch", S+"replica.py FileReplicationThread, find_pre_existing_file"),
   ("import", S+"importexport.py import_filedesc")],
  (), ["GET of +f files"])

P("F02", "A published file never changes on a non-volatile index",
  "On an index that is not volatile, a release file that exists cannot be overwritten with other content, whatever route is used: upload, push from another index or toxresult and documentation uploads of it. Neither it nor its version or project can be deleted there without asking for it explicitly with the force option, and the index or its user cannot be deleted at all. Uploading the identical content again keeps the stored file and its log as they were and different content is answered with a conflict.",
  ["inputs", "histories"],
  "all sequences of uploads, pushes and deletes for any file on a non-volatile index",
  "Tests try some routes; a new or changed route lacking the check passes all of them.",
  [S+"model.py", S+"views.py"],
  [("store refuses replacement before touching links", S+"model.py LinkStore.create_linked_entry / store_*"),
   ("delete views check volatility", S+"views.py index_delete, user_delete, del_project, del_verdata, ...")],
  (), ["POST/PUT/DELETE on index, project, version and file URLs"])

P("P01", "Every state change and file download is guarded by its permission",
  "Each request that changes users, indexes, projects, versions or files, or triggers uploads and pushes, is only carried out after the permission belonging to that operation was granted for the very resource it changes, and for operations which take data from one index to another for both. Release files kept on the server are only served after the read permission for the index was granted. Access lists are taken from the index's own configuration, with configuration and deletion reserved to the owner and root, and creating indexes for a user that does not exist only to that user.",
  ["inputs", "configurations"],
  "all requests of all users against all resources and access list settings",
  "Tests check selected routes with selected users; each route and each path in it needs its guard.",
  [S+"views.py", S+"view_auth.py", S+"model.py", S+"auth_devpi.py", "web/devpi_web/views.py"],
  [("permission= of view configurations", S+"views.py, web/devpi_web/views.py"),
   ("access lists", S+"view_auth.py RootFactory/StageACL.__acl__; model.py acl_*"),
   ("checks inside of views", S+"views.py submit, pushrelease, _pkgserv")],
  (), ["status 401/403 for requests without permission"])

P("P02", "Only valid credentials authenticate, and root only by its own password",
  "A request acts as a user only with that user's verified password or with an unexpired token signed by this server for that user; any other, expired, altered or missing credential acts as nobody. The root user is never authenticated by an external authentication plugin, a plugin's rejection is final and its data cannot forge the internal marker, and unknown users are never accepted because a plugin was silent. A password is only kept as a salted hash, and changing a password requires authorisation as that user or root.",
  ["inputs", "configurations"],
  "all credentials, plugin answers and token ages",
  "Tests use samples of bad tokens and plugin answers; the combinations of several plugins and of token defects are not enumerated.",
  [S+"auth.py", S+"auth_devpi.py", S+"model.py", S+"view_auth.py", S+"views.py"],
  [("token and plugin handling", S+"auth.py Auth._validate, _get_user_and_credentials, new_proxy_auth, get_auth_status"),
   ("password hashes", S+"auth.py verify_and_update_password_hash, model.py User.validate, set_password")],
  (), ["/+login, X-Devpi-Auth"])

P("P03", "Secrets and password hashes are never given out",
  "The record of a user which the server gives out or logs never holds a password, password hash or salt; only the authentication plugins and the export get those. No log message and no error answer of the server is made from a password, hash, secret or token. The server secret is only used to derive one key per purpose, and those keys only for signing; a generated secret file is accessible to its owner only from the moment it exists. Credentials inside of URLs are masked whenever the URL is shown in a message; those of a mirror's upstream URL are not stored with its links or files and those of the primary URL are not kept in the node information. (An index configuration is given out as it was set, including a mirror URL with credentials.)",
  ["inputs", "configurations"],
  "all answers of the server and all ways a secret gets into the process",
  "Tests look at single answers; a new answer which passes on a user's whole record is not looked at.",
  [S+"model.py", S+"config.py", S+"genconfig.py", S+"mirror.py", "common/devpi_common/url.py", "client/devpi/use.py"],
  [("hidden keys", S+"model.py User.get"), ("secret file checks", S+"config.py get_validated_secret / getsecret"),
   ("credentials stripped from URLs", S+"mirror.py, config.py primary_url, url.py URL.__repr__"),
   ("client state file", "client/devpi/use.py PersistentCurrent")],
  (), ["GET /user, /+api, client config file mode"])

P("M01", "Private projects are never taken from a mirror without permission",
  "When a project exists on a private index, releases of the same name from a mirror are only mixed in when the project is on the mirror whitelist of that index or of one it is looked up for before, or all projects are. The decision is taken for every base in lookup order and holds for listings, version data, links and installs alike, and without a private occurrence the mirror is used normally. Entries of a whitelist mean the same project in every spelling, and an unknown way of combining whitelists is refused.",
  ["configurations", "inputs"],
  "all inheritance graphs with mirrors, whitelists and project placements",
  "Tests cover single and double inheritance samples; the rule holds per order and placement of bases.",
  [S+"model.py"],
  [("whitelist decision during lookup", S+"model.py BaseStage.op_sro_check_mirror_whitelist, get_mirror_whitelist_info"),
   ("whitelist normalisation", S+"model.py PrivateStage/ BaseStageCustomizer")],
  (), ["simple page of a project, project listing"])

P("M02", "Lookup over index inheritance ends and visits each index once",
  "Looking something up over an index and its bases ends for every configuration of bases, including cyclic and missing ones, visits each reachable index at most once and the asked index first. Results found first win over the same file or version of a later index. Bases that do not exist are skipped with a warning and do not fail the lookup; changing an index to have unknown bases is refused.",
  ["configurations"],
  "all directed graphs of index bases",
  "Tests build a few small graphs; a traversal which loops or repeats needs a particular graph.",
  [S+"model.py", S+"views.py"],
  [("stage resolution order with visited set", S+"model.py BaseStage._sro/sro"),
   ("shadowing by visited names", S+"model.py BaseStage.get_releaselinks, get_versiondata, ..."),
   ("base validation", S+"model.py get_indexconfig / PrivateStage.normalize bases")],
  (), ["index listing, simple pages"])

P("M03", "The simple listing always matches the stored release links",
  "Each change of the links of a private index's project - upload, push, metadata registration, removal of a file, version or project - also updates what the simple listing is built from in the same transaction. The listing contains each file link the versions hold, with its hash, and none that was removed.",
  ["histories"],
  "all sequences of additions and removals of files, versions and projects",
  "Tests add and delete samples; each mutating operation needs its own update and a missing one shows only for that operation and history.",
  [S+"model.py"],
  [("derived listing regenerated on mutation", S+"model.py PrivateStage._regen_simplelinks, set_versiondata, del_versiondata, del_entry, store_releasefile, LinkStore")],
  [("key_projsimplelinks", "the stored listing", S+"model.py")],
  ["+simple pages"])

P("M04", "Project names are the same however they are spelled",
  "Wherever a project is looked up, stored, listed, indexed or deleted, spellings that normalise to the same name mean the same project. Normalisation is idempotent, and stored project keys always hold the normalised name.",
  ["inputs"],
  "all spellings of project names on all routes",
  "Tests use a few spellings on few routes; each key access needs the normalisation.",
  [S+"model.py", S+"mirror.py", S+"views.py", "common/devpi_common/validation.py", "web/devpi_web/doczip.py", "web/devpi_web/indexing.py"],
  [("normalise in key accessors", S+"model.py key_projversions, key_projversion, key_projsimplelinks, ..."),
   ("normalisation function", "common/devpi_common/validation.py normalize_name")],
  (), ["requests with different spellings"])

P("M05", "No name or path from outside leaves the place it belongs to",
  "Names of users, indexes, projects, versions and files coming from requests, archives or other servers never make the server or client read or write outside of the directory meant for them. Names of users and indexes which could change a path (separators, parent references, reserved characters) are refused before anything is stored under them, and no part of a storage key holds a separator. Archive members are only extracted below the target directory.",
  ["inputs"],
  "all names, URL paths and archive member names",
  "Tests try single bad names; there are many entry points and each needs a check on every path.",
  [S+"model.py", S+"keyfs_types.py", S+"views.py", S+"filestore.py", "common/devpi_common/archive.py", "web/devpi_web/doczip.py", S+"importexport.py"],
  [("name validation", S+"model.py is_valid_name, User.create, create_stage; common/devpi_common/validation.py"),
   ("key parameters", S+"keyfs_types.py PTypedKey.__call__"),
   ("extraction", "common/devpi_common/archive.py get_member_target"),
   ("documentation paths", "web/devpi_web/doczip.py get_path_below")],
  (), ["files below the server directory"])

P("M06", "Deleting removes everything that belonged to the deleted thing",
  "Deleting a file, version, project, index or user in the same transaction removes all stored data and files belonging to it: links, metadata, entries, file contents and membership in the lists it was named in. For mirrors that is what was downloaded, the cached listing and the name. Nothing that belongs to other versions, projects or indexes is removed.",
  ["histories"],
  "all contents of the deleted thing",
  "Tests delete prepared samples; leftovers show only later when the same name is created again.",
  [S+"model.py", S+"filestore.py", S+"mirror.py"],
  [("deletion cascade", S+"model.py User.delete, BaseStage.delete, PrivateStage.del_project, del_versiondata, del_entry; filestore.py FileEntry.delete; mirror.py MirrorStage.delete")],
  (), ["listings and file URLs after delete and re-create"])

P("M07", "Index configuration changes are validated as a whole",
  "The type of an index never changes after its creation. A change of an index configuration is only stored after all of its values were normalised and accepted by the rules for its type, unknown or wrongly typed options are refused, and an option that is not part of a partial change keeps its value. Options of a user which do not exist are refused when the user is created and not stored later.",
  ["inputs", "configurations"],
  "all requests creating, replacing or patching index configuration",
  "Tests send selected valid and invalid values.",
  [S+"model.py", S+"views.py"],
  [("configuration update", S+"model.py BaseStage.modify, get_indexconfig, StageCustomizer.normalize/validate_config"),
   ("type immutability", S+"model.py BaseStage.modify; views.py index_modify")],
  (), ["GET /user/index after PUT/PATCH"])

P("R01", "Upstream trouble never poisons a mirror's cache",
  "When the upstream server of a mirror fails, times out, answers with an error, with something that cannot be understood or with data older than already seen, the mirror keeps answering from what it cached, or says that upstream is unavailable when nothing is cached; it never stores that failure as an empty or changed project nor remembers it as a missing one. A project removed upstream (a definite answer that it does not exist) is told apart from an unreachable upstream. Cached data is only marked fresh after upstream gave a definite answer.",
  ["fault_sequences", "histories"],
  "all sequences of upstream answers, errors and timeouts",
  "Tests mock a few answers; combinations with cache states are not enumerated.",
  [S+"mirror.py"],
  [("link retrieval", S+"mirror.py MirrorStage.get_simplelinks_perstage, _async_fetch_releaselinks, _update_simplelinks"),
   ("project list", S+"mirror.py _get_remote_projects, _stale_list_projects_perstage"),
   ("freshness", S+"mirror.py ProjectUpdateCache, ProjectNamesCache")],
  (), ["simple pages of a mirror with failing upstream"])

P("R02", "Locks and other resources are released on every path",
  "Each lock on the update of a project or on a file being unpacked, each storage connection, and each temporary file and response used for transferring files is released on every way out of the operation, whether it succeeds, fails, times out or is shut down. The lock of a project is waited for with a limit.",
  ["fault_sequences", "schedules"],
  "an exception at any call between acquiring and releasing",
  "Tests do not raise at each call between acquisition and release.",
  [S+"mirror.py", S+"keyfs.py", S+"keyfs_sqlite.py", S+"replica.py", S+"views.py", S+"main.py", "web/devpi_web/doczip.py", "postgresql/devpi_postgresql/main.py"],
  [("update locks", S+"mirror.py ProjectUpdateInnerLock, MirrorStage.get_simplelinks_perstage"),
   ("unpack lock", "web/devpi_web/doczip.py locked_unpack_path"),
   ("connections", S+"keyfs_sqlite.py BaseStorage.get_connection, keyfs.py Transaction._close")],
  (), ["later requests to the same project do not hang"])

P("R03", "Background threads survive failures and stop on shutdown",
  "A failing task, hook, upstream or storage access never ends one of the long running background threads (notification, replication of changes and files, indexing): it is logged and the thread goes on with the next item, which is accounted for in its queue. A shutdown request ends these threads from every place where they wait, and is never swallowed by error handling.",
  ["fault_sequences", "schedules"],
  "exceptions of any kind in any iteration of any background thread",
  "Tests let background threads run undisturbed.",
  [S+"mythread.py", S+"keyfs.py", S+"replica.py", S+"mirror.py", "web/devpi_web/whoosh_index.py"],
  [("thread loops", S+"keyfs.py TxNotificationThread.thread_run; replica.py ReplicaThread, FileReplicationThread, InitialQueueThread; mirror.py; whoosh_index.py IndexerThread, InitialQueueThread"),
   ("shutdown signal", S+"mythread.py ThreadPool, MyThread")],
  (), ["threads alive after errors", "process stops"])

P("X01", "Export and import keep everything and refuse what they cannot keep",
  "Exporting a server and importing the result gives the same users, indexes, projects with their versions, metadata, release files, documentation, test results, logs and hashes. Anything which cannot be carried over completely - missing file, wrong checksum, unknown kind of file, unknown format, unclean target - aborts the run with an error instead of being left out silently. Indexes are created after their bases.",
  ["histories", "inputs"],
  "all server contents",
  "Tests export prepared servers; a kind of data left out is noticed only if it was prepared.",
  [S+"importexport.py", S+"main.py"],
  [("export of all kinds", S+"importexport.py Exporter, IndexDump"),
   ("import of all kinds", S+"importexport.py Importer"),
   ("order", S+"importexport.py IndexTree")],
  (), ["exported dataindex.json, imported server"])

P("S01", "All storage backends behave alike",
  "Each storage backend offers the operations of the storage interface with the same parameters and the same behaviour towards the rest of the server: changes, file content and serial become durable together and in the same order, a failed write leaves nothing, content written in a transaction can be read, sized and removed in it before commit, with the latest of these counting, and files and their pending changes are forgotten on rollback.",
  ["configurations", "histories"],
  "all backends and all sequences of storage operations in a transaction",
  "The test suite runs on sqlite backends only here; another backend is not exercised without its database.",
  [S+"keyfs_sqlite.py", S+"keyfs_sqlite_fs.py", "postgresql/devpi_postgresql/main.py", S+"interfaces.py"],
  [("interfaces", S+"interfaces.py IStorageConnection4, IWriter2, IStorage"),
   ("implementations", S+"keyfs_sqlite.py, keyfs_sqlite_fs.py, postgresql/devpi_postgresql/main.py")],
  (), ["same results on each backend"])

P("C01", "The client sends credentials only where they belong",
  "The client sends a login token, basic authentication or client certificate only with requests to addresses at or below the one it was stored for, and makes them part of an address only for such addresses. What it stores, it stores for the root of the server in use, and of several users' tokens it uses that of the current user. Login tokens never become part of a command line or of output. Passwords are exchanged for the token the server gives out, and neither kept nor printed. The file with the tokens is written with access for its owner only, and tokens are put into no other file. (Where requests are redirected to by a server is not covered.)",
  ["inputs", "configurations"],
  "all URLs, switches between servers, redirects and stored credentials",
  "Tests use one server at a time.",
  ["client/devpi/use.py", "client/devpi/main.py", "client/devpi/login.py", "client/devpi/install.py", "client/devpi/upload.py"],
  [("token lookup by server", "client/devpi/use.py Current.get_auth, _value_from_dict_by_url; main.py http_api"),
   ("private state file", "client/devpi/use.py PersistentCurrent._persist"),
   ("login", "client/devpi/login.py")],
  (), ["headers of requests sent", "mode of the state file"])

P("C02", "The client asks before it destroys and reports failures",
  "Client commands that delete users, indexes, projects, versions or files only send the delete request after the user confirmed it for the things shown, or explicitly said not to be asked. A request which fails or is answered with an error, and a failing subprocess, ends the command with a non-zero exit status, unless it goes on to do the remaining items and reports the failure in the exit status at the end (refreshing or testing several projects, pushing several files). A command which only looks whether the index may be accessed, or posts the result of tests, at least prints the error.",
  ["inputs", "fault_sequences"],
  "all command lines, answers of the user and of the server",
  "Tests answer the question with yes.",
  ["client/devpi/list_remove.py", "client/devpi/index.py", "client/devpi/user.py", "client/devpi/main.py", "client/devpi/upload.py", "client/devpi/push.py"],
  [("confirmation", "client/devpi/main.py Hub.ask_confirm; list_remove.py, index.py, user.py"),
   ("error handling of answers", "client/devpi/main.py Hub.http_api, HTTPReply")],
  (), ["requests sent by the client", "exit status"])

P("W01", "The search index is only changed by whole batches",
  "The web search index is changed by whole batches: a batch which fails is discarded and its writer released, a batch which succeeds is committed, and either way the queue is told. A project's old entries are removed in the same batch that adds the new ones, and a removed project leaves no entries. A failing batch is tried again later and does not keep later batches from being indexed.",
  ["fault_sequences", "schedules"],
  "an exception at any point of indexing any project",
  "Tests index without failures.",
  ["web/devpi_web/whoosh_index.py", "web/devpi_web/main.py", "web/devpi_web/indexing.py"],
  [("writer scope", "web/devpi_web/whoosh_index.py IndexerThread.handler, Index.update_projects/delete_projects/_update_project"),
   ("queue accounting", "web/devpi_web/whoosh_index.py IndexingSharedData")],
  (), ["search results"])

P("W02", "Data from packages is never rendered as markup of the site",
  "Names, summaries, metadata, descriptions, log entries, test results, error messages and search highlights coming from packages or requests are escaped when rendered; only descriptions that went through the sanitising renderer and documentation served as files are passed on as markup. Links made from data of packages, such as homepages, lead only to web addresses, links of the site itself to the application's own addresses. XML received from clients is parsed without entity expansion.",
  ["inputs"],
  "all package metadata and request parameters",
  "Tests render harmless metadata.",
  ["web/devpi_web/templates", "web/devpi_web/description.py", "web/devpi_web/views.py", "web/devpi_web/whoosh_index.py", "web/devpi_web/xmlrpc.py", S+"views.py"],
  [("template expressions", "web/devpi_web/templates/*.pt"), ("description rendering", "web/devpi_web/description.py"),
   ("safe parser", "web/devpi_web/xmlrpc.py")],
  (), ["HTML responses"])

P("N01", "A replica eventually catches up with its primary",
  "As long as the primary can be reached from time to time, a replica eventually applies every change and has every file of the primary.",
  ["schedules", "fault_sequences"], "all fair schedules and finite sequences of network failures",
  "Liveness over unbounded time is not observable in a finite test.",
  [S+"replica.py"], [("retry loops", S+"replica.py ReplicaThread, FileReplicationThread")])
P("N02", "Versions are ordered as installers order them",
  "The latest version shown or used for a project is the one an installer prefers, for all version strings.",
  ["inputs"], "all version strings", "Tests compare samples of versions.",
  ["common/devpi_common/metadata.py", S+"model.py"], [("Version ordering", "common/devpi_common/metadata.py")])
P("N03", "Proxied and streamed answers arrive within bounded memory and time",
  "Serving, mirroring or replicating a file of any size needs bounded memory and ends in bounded time.",
  ["inputs", "schedules"], "all file sizes and network speeds", "Tests use small files.",
  [S+"views.py", S+"replica.py"], [("chunked streaming", S+"views.py FileStreamer")])
P("N04", "Search finds what was indexed",
  "A search for a term returns every project whose indexed text holds the term, in order of relevance.",
  ["inputs"], "all texts and queries", "Tests search samples.",
  ["web/devpi_web/whoosh_index.py"], [("index schema and queries", "web/devpi_web/whoosh_index.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
