import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
RS="src/raft_server.cxx"; RQ="src/raft_server_req_handlers.cxx"; RP="src/raft_server_resp_handlers.cxx"
RAFT=[RS,RQ,RP,"src/peer.cxx","include/peer.hxx","include/raft_server.hxx"]
common="The repository's raft tests start three servers over loopback once, with no fault, no crash and one schedule."
p("C01","Election safety: at most one leader per term",
  "In any term at most one server of a cluster acts as leader: no two servers ever announce leadership of, or send replication or snapshot traffic for, the same term. This holds across message loss, duplication, delay and reordering, partitions, crashes and restarts, and while servers join or leave one at a time.",
  ["schedules","fault_sequences","crash_points","histories"],"every message/timer/thread schedule, every sequence of network faults and crash points, for clusters of 1-5 servers",
  common+" Two leaders in one term need competing candidacies with particular losses or a crash between voting and answering.",
  RAFT,[("vote granting, one vote per term",RQ+":handle_vote_req"),("majority counting",RP+":handle_voting_resp"),("term adoption",RS+":update_term")],
  [("state_","current term and vote",RS),("voted_servers_/votes_granted_","votes counted in the current term",RS)],
  ["rpc_client::send (outgoing append/snapshot requests)","raft_event_listener::on_event(become_leader)"])
p("C02","Committed entries are agreed on everywhere and never lost",
  "If any server's state machine is given an application entry at some log index, then no server, at any later time and after any restarts, is ever given a different entry for that index, and every server that later becomes leader of a later term has that entry in its log or in its snapshot. All servers therefore apply prefixes of one single sequence. A server that accepts a leader's replication request holds every entry it thereby confirms, identical to the leader's.",
  ["schedules","fault_sequences","crash_points","histories"],"every interleaving of requests, elections, replication, compaction and crashes in clusters of 1-5 servers",
  common+" Losing a committed entry needs several leader changes with particular partial replication.",
  RAFT,[("quorum commit rule",RP+":handle_append_entries_resp"),("up-to-date check on votes",RQ+":handle_vote_req"),("log consistency check",RQ+":handle_append_entries"),("commit thread",RS+":commit_in_bg")],
  [("quick_commit_idx_","commit index",RS),("matched_idx_","highest index known replicated on a peer","include/peer.hxx")],
  ["state_machine::commit","state_machine::apply_snapshot","log_store contents of each new leader"])
p("C03","Each server applies entries in order, once each, without gaps",
  "A state machine that reported last applied index k at start is given the committed application entries with indexes above k in strictly increasing order, each exactly once and none skipped, until the server stops. The only exception is an installed snapshot, which moves the position forward to the snapshot's index (never backward) and after which application continues from the next entry.",
  ["schedules","fault_sequences","crash_points","histories"],"every interleaving of the commit thread with request handling, snapshot installation and restart",
  common+" The commit thread, the request handlers and snapshot installation race on the apply position; the tests never install a snapshot or restart a server.",
  RAFT,[("commit thread",RS+":commit_in_bg"),("snapshot installation",RQ+":handle_snapshot_sync_req"),("join",RQ+":handle_join_cluster_req")],
  [("sm_commit_index_","last applied index",RS)],["state_machine::commit","state_machine::apply_snapshot","state_machine::last_commit_index"])
p("C04","Log matching between servers, and leaders never rewrite their log",
  "If the logs of two servers hold an entry with the same index and the same term, the entries are identical and so are all entries before it that both still hold. While a server is leader of a term it never overwrites or removes an uncompacted entry of its own log, and no server ever overwrites an entry it has already applied.",
  ["schedules","fault_sequences","crash_points","histories"],"every history of appends, conflicts, truncations, pack transfers and compactions in clusters of 1-5 servers",
  common+" Logs only diverge after leader changes with unreplicated suffixes, which the tests never create.",
  RAFT,[("consistency check and conflict truncation",RQ+":handle_append_entries"),("log packs",RQ+":handle_log_sync_req"),("next index back-off",RP+":handle_append_entries_resp")],
  None,["log_store (all writes)","append_entries requests"])
p("C05","Votes and terms survive crashes",
  "A server grants its vote to at most one candidate in any term, even if it crashes and restarts from its saved state at any point, and it answers or sends nothing that depends on a vote or term before that vote or term has been saved. The term a server reports or saves never decreases over its whole life.",
  ["schedules","crash_points","fault_sequences"],"every crash point between deciding, saving and answering; every duplicate or delayed vote request",
  common+" No test restarts a server.",
  RAFT,[("save before answer",RQ+":handle_vote_req"),("candidate saves term and own vote",RS+":become_candidate/request_vote"),("term adoption is saved",RS+":update_term")],
  None,["state_mgr::save_state / read_state","vote responses and all message terms on the wire"])
p("C06","The cluster recovers and makes progress once faults stop",
  "Whatever faults happened before, once a majority of the members is running, messages are delivered and faults have stopped, the cluster elects a leader within a bounded number of election timeouts, accepts new entries, and every running member applies them and all earlier committed entries within a bounded time. No server is left permanently stuck, including ones that lag behind the leader's compacted log.",
  ["schedules","fault_sequences","crash_points","histories"],"every fault history followed by a fault-free period, for clusters of 1-5 servers and all election settings",
  common+" They never inject a fault, so they never need to recover from one.",
  RAFT,[("election timer",RS+":handle_election_timeout/restart_election_timer"),("heartbeats and busy flag",RS+":request_append_entries/handle_hb_timeout"),("commit thread wake-up",RS+":commit/commit_in_bg"),("snapshot sync",RS+":create_sync_snapshot_req")],
  None,["state_machine::commit on every server in the final fault-free phase"])
p("C07","A correct server never shuts itself down or crashes",
  "With a correctly behaving application (state machine, log store, state manager), a server never asks for process exit, terminates, deadlocks, throws out of its entry points or touches freed memory, whatever messages its peers send it and in whatever order, with whatever delays, losses, duplicates, crashes and restarts. The only legitimate exit request is the one of a server whose removal from the cluster was requested.",
  ["schedules","fault_sequences","crash_points","histories"],"every schedule, fault sequence and crash point in clusters of 1-5 servers",
  common+" The code contains more than twenty 'this cannot happen, exit' branches whose reachability depends on races and fault sequences.",
  RAFT+["src/buffer.cxx","src/snapshot_sync_req.cxx","src/snapshot.cxx","src/cluster_config.cxx"],[("exit branches",RS+", "+RQ+", "+RP+" (system_exit)"),("peer lifetime","src/peer.cxx:send_req")],
  None,["state_mgr::system_exit, exit/abort/terminate, exceptions leaving process_req or timer callbacks, signals, heap red zones"])
p("C08","Snapshots and compaction never lose or alter state",
  "Creating a snapshot compacts only log entries covered by that completed snapshot, and a snapshot sent to another server is received with exactly the bytes, index, term and membership of the one created, however its blocks are delayed, repeated or lost and whoever crashes. A server that installed a snapshot continues with a state equal to having applied every entry up to the snapshot's index, and it never replaces newer applied state with an older snapshot. While creating snapshots succeeds, every server keeps taking one about every configured distance and compacts its log up to the configured reserve, so the log stays bounded.",
  ["schedules","fault_sequences","crash_points","histories"],"every interleaving of block transfer, snapshot creation, compaction, leader change and crash",
  common+" Snapshots are never taken in the cluster tests.",
  [RS,RQ,RP,"src/snapshot.cxx","src/snapshot_sync_req.cxx","include/snapshot_sync_ctx.hxx"],
  [("snapshot creation and compaction",RS+":snapshot_and_compact/on_snapshot_completed"),("block sending",RS+":create_sync_snapshot_req"),("block receiving",RQ+":handle_snapshot_sync_req"),("offset tracking",RP+":handle_install_snapshot_resp")],
  None,["state_machine::{create,save,apply,read}_snapshot*","log_store::compact"])
p("C09","Membership changes one server at a time and is agreed on",
  "Every configuration entry in the replicated log differs from the previous one by at most one server, records the log position of that previous configuration, and is added only by the leader of its term and only when no earlier configuration entry is still uncommitted. All servers install the same membership for the same log index, in log order.",
  ["schedules","fault_sequences","crash_points","histories"],"every interleaving of add and remove requests, retries, leader changes and crashes",
  common+" One server is added or removed with nothing else going on.",
  [RS,RQ,RP,"src/cluster_config.cxx","src/srv_config.cxx"],[("one change at a time",RQ+":handle_add_srv_req/handle_rm_srv_req"),("configuration append",RQ+":sync_log_to_new_srv/rm_srv_from_cluster"),("configuration install",RS+":reconfigure/commit_in_bg")],
  [("config_changing_","an uncommitted configuration exists in the log",RS)],["log_store (conf entries)","state_mgr::save_config"])
p("C10","Adding and removing servers completes, with the right state",
  "When the leader accepts a request to add a reachable new server and the cluster then stays healthy, the new server receives all committed state, becomes a member and from then on takes part in replication; when it accepts a request to remove a follower, running or down, that server leaves the membership and the remaining ones keep working. A join or removal that faults or another overlapping membership change interrupted may have to be requested again, and never prevents later membership requests from completing once the cluster is healthy again.",
  ["schedules","fault_sequences","histories"],"every loss, delay and repetition of the join, log-sync, snapshot and leave messages, with and without compaction on the leader",
  common+" The add/remove tests run each operation once without faults and with an uncompacted log.",
  [RS,RQ,RP],[("invitation and log sync",RQ+":invite_srv_to_join_cluster/sync_log_to_new_srv"),("retry",RP+":handle_ext_resp_err"),("joiner side",RQ+":handle_join_cluster_req/handle_log_sync_req"),("leaving",RQ+":handle_leave_cluster_req")],
  None,["add_srv/remove_srv results","state_mgr::save_config on members and joiner","state_machine::commit on the joiner"])
p("C11","Pre-vote: an isolated server does not disturb the cluster",
  "With pre-vote enabled, a server raises its term on its own only after a majority of the members (itself included) answered favourably since its current pre-vote round began, so a server that cannot reach a majority keeps its term however long it is isolated, and its return does not depose a working leader. Members that are in regular contact with a leader refuse pre-votes in defensive mode, and answering a pre-vote never changes the answering server's saved term or vote.",
  ["schedules","fault_sequences","histories"],"every partition, loss, duplication and delay of pre-vote messages, in defensive and non-defensive mode",
  common+" The pre-vote tests check only that a leader appears without faults.",
  [RS,RQ,RP,"include/srv_state.hxx"],[("pre-vote round",RS+":request_prevote"),("pre-vote answer",RQ+":handle_prevote_req"),("pre-vote counting",RP+":handle_prevote_resp")],
  [("prevote_state_","answers counted in this pre-vote round",RS)],["prevote/vote messages on the wire","state_mgr::save_state"])
p("C12","Client entries: only what was submitted, at most once, truthful answers",
  "Every application entry that any state machine is given is byte for byte one that a client submitted, and each submission appears at most once in the log. A cookie that the application gets back with an entry is the one it handed in with that entry. A submission is reported accepted only if the answering server was leader and put it in its log; every asynchronous submission is answered exactly once, with the answer the leader gave or with the error that kept it from arriving, and a submission reported accepted is applied on every live member once the cluster is healthy if its leader's term was not overtaken meanwhile.",
  ["schedules","fault_sequences","histories","inputs"],"every interleaving of concurrent submissions through leaders and followers with leader changes and losses",
  common+" They submit entries one by one to a stable leader.",
  [RS,RQ],[("client request handling",RQ+":handle_cli_req"),("forwarding to the leader",RS+":send_msg_to_leader"),("direct submission",RS+":replicate_log")],
  None,["append_entries/replicate_log results","state_machine::commit","log_store::append"])
p("C13","Pre-commit and rollback notifications mirror the log",
  "Each application entry that a running leader or follower puts in its log while replicating (not the ones it finds at start or receives in bulk while joining) is announced to its state machine exactly once through pre-commit for that index before the state machine is asked to commit it, and each announced entry that is later dropped from the log because of a conflict is announced through exactly one rollback for that index before the index is reused. An entry that was committed on a server is never rolled back there.",
  ["schedules","fault_sequences","histories"],"every history of conflicting leaders, truncations, re-appends and direct submissions",
  common+" No test makes a follower drop an entry.",
  [RS,RQ],[("follower append and overwrite",RQ+":handle_append_entries"),("leader append",RQ+":handle_cli_req, "+RS+":replicate_log")],
  None,["state_machine::{pre_commit,rollback,commit}","log_store::{append,write_at}"])
p("C14","A leader cut off from the majority stops claiming leadership",
  "A server that has not heard from a majority of its cluster for longer than twice the maximum election timeout neither reports itself as leader nor accepts client entries, even though it has not learned of a newer leader. A leader that keeps hearing from a majority keeps reporting itself as leader and keeps accepting entries.",
  ["schedules","fault_sequences","histories"],"every pattern of losses and partitions around a leader, for several servers in one process",
  common+" No test partitions a leader.",
  [RS,RQ,RP],[("leadership lease",RS+":is_leader"),("response times",RP+":handle_peer_resp"),("client refusal",RQ+":handle_cli_req")],
  None,["is_leader()","append_entries results"])
p("C15","The file log store behaves like a list, also after reopening",
  "The file-based log store answers every query exactly as a simple in-memory list of entries to which the same appends, overwrites (which drop everything behind them), pack applications and compactions were applied, whatever its buffer size. Closing and reopening it at any point between operations gives exactly the same answers, and queries running concurrently with appends see entries that are or were at their index, never garbage.",
  ["inputs","histories","schedules","crash_points"],"every operation sequence, buffer size, reopen point and reader/writer interleaving",
  "The log store test uses one random sequence per operation type, with one buffer size, mostly without reopening, and no concurrency.",
  ["src/fs_log_store.cxx","include/fs_log_store.hxx"],[("write and truncate",":fs_log_store::append/write_at/apply_pack"),("read buffer",":log_store_buffer"),("reopen",":fs_log_store::fs_log_store"),("compaction",":fs_log_store::compact")],
  None,["log_store interface","bytes of the index, data and start files"])
p("C16","The file log store never silently corrupts under I/O failure",
  "When a file operation of the log store fails or transfers less than asked (I/O error, full disk), the operation in progress is reported to the caller as failed, by an exception or a failure result, unless it nevertheless took full effect. Whatever failed before, every entry the store later returns, also after closing and reopening it, is byte for byte one that was handed to it for that index, entries that a failed operation had no need to touch stay readable after reopening, and a failed compaction leaves all entries as they were.",
  ["fault_sequences","inputs","histories"],"every position of a failing, short or refused file operation in every operation sequence",
  "No test makes a file operation fail.",
  ["src/fs_log_store.cxx"],[("stream error checks",":fs_log_store::append/write_at"),("backup and restore",":fs_log_store::compact")],
  None,["log_store interface after injected failures and after reopening"])
p("C23","The file log store survives a process crash at any point",
  "If the process dies at any point of any log store operation, the store can be opened again from its files and then holds every entry of all operations that had completed, at the same indexes. The interrupted operation is there entirely or not at all; an interrupted overwrite or pack may in addition have removed the entries it replaces and stored only a first part of the new ones.",
  ["crash_points","inputs","histories"],"every crash point inside every operation of every operation sequence, including opening",
  "No test kills a process that is writing to the store.",
  ["src/fs_log_store.cxx"],[("append and overwrite",":fs_log_store::append/write_at/apply_pack"),("compaction",":fs_log_store::compact"),("opening",":fs_log_store::fs_log_store")],
  None,["log_store interface after killing the process and reopening"])
p("C17","Asynchronous results are delivered exactly once, to every waiter",
  "When a result or error is set on an asynchronous result, its completion handler runs exactly once with that result or error, whether it was registered before, after or while the result was set, and whichever threads do so. A thread waiting for the result returns the set value or raises the set error, never earlier than it was set and always soon after, also when its wait is woken spuriously.",
  ["schedules","inputs"],"every interleaving of setter, registering thread and waiting threads, with spurious wake-ups",
  "The async tests use sleeps to fix one order of registration, setting and waiting.",
  ["include/async.hxx"],[("set_result/when_ready/get","include/async.hxx:async_result")],None,["handler invocations","get() return values and exceptions"])
p("C18","Timers fire once, not early, and never after cancellation",
  "A task scheduled with a delay runs exactly once per scheduling, not before the delay has passed, and within a bounded time after it while the service runs. A task whose cancellation returned before its execution began does not run, and a task scheduled again before it ran, cancelled in between or not, runs once for the new schedule and no longer for the old one.",
  ["schedules","inputs","histories"],"every interleaving of scheduling, cancelling, rescheduling and firing on several service threads",
  "The scheduler test schedules and cancels a few tasks with generous sleeps.",
  ["src/asio_service.cxx","include/delayed_task.hxx","include/delayed_task_scheduler.hxx","include/timer_task.hxx"],[("schedule/cancel","src/asio_service.cxx:asio_service::schedule/cancel_impl/_timer_handler_"),("cancel flag","include/delayed_task.hxx:execute/cancel/reset")],None,["task executions against the virtual clock"])
p("C19","RPC over TCP delivers requests and responses intact, one answer each",
  "Over the TCP transport every request handed to a client completes exactly once, either with the response the remote server produced for that very request or with an error naming that request, and a request or response that arrives has exactly the fields and log entries that were sent. This holds whatever way the stream is fragmented or delayed, connections are refused or reset, listeners are stopped and started again, or requests are issued concurrently on one client, and a client whose connection failed can work again. While no lookup, connection, listener or handler fails, every request of up to 16 MB of log data gets its response. Bytes that are not a request, whoever sends them, reach no handler and disturb no other connection.",
  ["schedules","fault_sequences","inputs"],"every fragmentation, delay, refusal, reset and interleaving of concurrent sends",
  "The messaging tests exchange messages over an undisturbed loopback connection.",
  ["src/asio_service.cxx","src/buffer.cxx","include/req_msg.hxx","include/resp_msg.hxx","include/log_entry.hxx"],[("client","src/asio_service.cxx:asio_rpc_client"),("server session","src/asio_service.cxx:rpc_session")],None,["rpc_client::send completions","requests seen by the server"])
p("C20","The logger writes every accepted line once, in order",
  "Every log line at or above the configured level that a thread hands to the logger before the service is stopped ends up in the log file exactly once, unmangled, with its level and the time at which it was logged, with lines of one thread in the order they were logged, and lines below the level do not appear.",
  ["schedules","inputs"],"every interleaving of logging threads with the periodic flush and with stopping, across wall clock jumps",
  "The logger test writes lines from one thread and checks the file once.",
  ["src/asio_service.cxx"],[("buffering and flushing","src/asio_service.cxx:fs_logger"),("periodic flush","src/asio_service.cxx:asio_service_impl::flush_all_loggers")],None,["bytes of the log file after the service stopped"])
p("C21","Stopping always completes",
  "Destroying a server to which no more requests, responses and timers are delivered returns within a bounded time whatever its committing thread is doing at that moment, after which none of its callbacks runs; stopping the service returns within a bounded time whatever other threads are doing. Stopping a service twice or concurrently with scheduled work does not hang or crash.",
  ["schedules","histories"],"every interleaving of shutdown with the commit thread, timers, requests and worker threads",
  "The repository's own build notes record that stop() hangs in some runs; tests cannot enumerate the interleavings.",
  [RS,"src/asio_service.cxx"],[("server shutdown",RS+":~raft_server/commit_in_bg"),("service shutdown","src/asio_service.cxx:asio_service_impl::stop/worker_entry")],None,["return of ~raft_server, asio_service::stop, ~asio_service under virtual time"])
p("C22","Serialisation round trip of buffers, entries, configs and snapshots",
  "Every log entry, server configuration, cluster configuration, snapshot and snapshot block that is serialised and deserialised again comes back equal in every field, for every content and size, including sizes around the small/large buffer boundary.",
  ["inputs"],"every value",
  "The serialisation test checks one random value per type.",
  ["src/buffer.cxx","include/log_entry.hxx","src/cluster_config.cxx","src/srv_config.cxx","src/snapshot.cxx","src/snapshot_sync_req.cxx"],[("buffer","src/buffer.cxx"),("serialize/deserialize","include/log_entry.hxx, src/cluster_config.cxx, src/snapshot.cxx")],None,["deserialize(serialize(x))"])
p("C24","A healthy cluster keeps its leader and applies entries at once",
  "Once a leader is established and it and a majority of the members run undisturbed (messages arrive within a small fraction of the heartbeat interval, nothing is stalled), whatever faults happened before, no server starts an election and the leader stays leader, also while a minority of the members is down; while nothing is submitted the servers exchange only heartbeats. Every entry submitted to the leader in that situation is accepted and applied by every running member within a few message delays, without waiting for a heartbeat, and when the leader fails, another one accepts and applies entries within a few election timeouts.",
  ["schedules","histories","fault_sequences"],"every schedule and every fault history before the undisturbed period, for clusters of 1-5 servers, all timing settings and log sizes",
  common+" They wait for whole seconds, so they do not notice elections in between or entries that only move with the next heartbeat or election.",
  RAFT,[("heartbeats",RS+":handle_hb_timeout/enable_hb_for_peer"),("election timer restart",RQ+":handle_append_entries"),("immediate replication and commit notice",RS+":request_append_entries/commit, "+RP+":handle_append_entries_resp (pending commit)"),("heartbeat slow-down bounds","include/peer.hxx:slow_down_hb, include/raft_params.hxx:max_hb_interval")],
  [("busy flag, pending commit","a request to the peer is in flight; a commit must be told afterwards","include/peer.hxx")],["vote and pre-vote requests on the wire","state_machine::commit on every running member against the virtual clock"])
p("C25","Role and catch-up events tell the application the truth",
  "The event listener is told that a server became leader exactly once for each term it leads and before the server accepts a client entry as leader of that term, and that it became follower before the server answers anything in a later term than the one it led. Whenever a server has applied everything it knows to be committed, it announces afterwards that it caught up, and it does not announce that right after applying an entry when a later application entry was already known to be committed.",
  ["schedules","histories","fault_sequences","crash_points"],"every interleaving of elections, step-downs, replication and the commit thread",
  "No test registers an event listener while leadership changes.",
  [RS,RQ,RP,"include/events.hxx"],[("leadership events",RS+":become_leader/become_follower"),("catch-up event",RS+":commit_in_bg")],None,["raft_event_listener::on_event"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
