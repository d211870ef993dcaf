MAP = {
"a leader must not commit logs of previous terms by counting replicas": "C02",
"replication progress of a previous leadership must not be counted for the new one": "C02",
"a follower must not commit logs that are not known to match leader's logs": "C02",
"handle peers whose next log has been compacted, on both leader and follower sides": "C07",
"compare with snapshot's term for voting when all logs are compacted": "C02",
"an election timeout that expires while winning the election must not stop the leader": "C07",
"prevote must be retried when some of the servers do not respond": "C06",
"stop prevote when a leader is present": "C11",
"learn newer term from responses of extended requests": "C06",
"is_leader must check the responses of this server's own peers every time": "C14",
"replicate_log must append as the leader of current term, pre-commit the log and tell that it is accepted": "C12",
"only a leader could change the configuration, and only one change could be made at a time": "C09",
"responses from another server must not be taken as ones from the server to join": "C07",
"joining a cluster must survive restarts of the new server, rpc failures and leader changes": "C10",
"a joining server must keep its vote, commit index and term, and drop logs that are not committed": "C05",
"a server that is invited to join is no longer leaving": "C10",
"a snapshot that is already covered must not be requested forever": "C06",
"lost wakeups of the committing thread, and of the destructor that waits for it": "C21",
"a snapshot must be applied atomically with regard to committing logs, before logs are dropped": "C08",
"recover from a crash in the middle of installing a snapshot": "C07",
"keep the snapshot that can be sent to peers, and never go back to an older one": "C08",
"all logs that are dropped by an overwrite must be rolled back": "C13",
"committing an old configuration must not take the place of a newer one": "C09",
"initial configuration must not be taken as committed before it is": "C09",
"a peer must not be used after it is removed": "C07",
"a server that is not a member of the cluster must not start an election or step down": "C07",
"never run for election with a configuration that is two changes behind": "C02",
"current configuration must be read with lock_ held": "C07",
"logs covered by the last snapshot are committed": "C06",
"find the configuration for a snapshot while joining a cluster": "C08",
"a server that cannot start an election must not deny prevotes forever when there is no leader": "C06",
"a response for an old snapshot must not be taken as the one for the snapshot being synced": "C08",
"only a candidate, with an unchanged configuration, could win an election": "C01",
"a server that is asked to leave must not block electing a leader forever": "C06",
"an async result must be delivered exactly once, and not before it is set": "C12",
"requests sent concurrently with one rpc client must not get each other's responses": "C19",
"a rpc client that failed to connect must be able to connect again": "C19",
"log store queries must give the same answers whatever part of the log is buffered": "C15",
"overwriting the last log entry or applying a log pack must leave exactly the new entries in the store": "C15",
"a log entry that could not be written completely must not corrupt the log store": "C23",
"a failed or interrupted log compaction must leave the log as it was": "C16",
"stopping the service could hang and lose log lines": "C21",
"an expired timer that was scheduled again could run the task early": "C18",
"log lines could be stamped with the time of another thread": "C20",
"stopping a listener while it is accepting a connection could crash": "C19",
"sending an entry moved the read position of the buffer it shares with the committing thread": "C03",
"a commit notice was lost when a heartbeat went out while the response that caused it was being handled": "C24",
"logs accepted as a member or not committed were dropped silently by log sync when a server joins again": "C02",
"an entry of a request that claims more bytes than there are was read beyond the buffer": "C19",
}
