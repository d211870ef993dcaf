From 24b0126c86b486333cc0a8bf28b511c8b34240f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:53 +0000
Subject: [PATCH 01/49] fix: a leader must not commit logs of previous terms by
 counting replicas

---
 include/log_val_type.hxx          |  3 ++-
 src/raft_server.cxx               |  8 ++++++++
 src/raft_server_resp_handlers.cxx | 10 +++++++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/log_val_type.hxx b/include/log_val_type.hxx
index e87c1b9..b28eeeb 100644
--- a/include/log_val_type.hxx
+++ b/include/log_val_type.hxx
@@ -24,7 +24,8 @@ enum log_val_type
     conf,
     cluster_server,
     log_pack,
-    snp_sync_req
+    snp_sync_req,
+    no_op
 };
 }
 #endif // _LOG_VALUE_TYPE_HXX_
\ No newline at end of file
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 2cd053b..dfe9fb2 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -455,6 +455,14 @@ void raft_server::become_leader()
         config_changing_ = true;
     }
 
+    // logs from previous terms can only be committed along with a log of current term
+    ulong last_log_idx = log_store_->next_slot() - 1;
+    if (last_log_idx > quick_commit_idx_ && term_for_log(last_log_idx) != state_->get_term())
+    {
+        ptr<log_entry> entry(cs_new<log_entry>(state_->get_term(), buffer::alloc(0), log_val_type::no_op));
+        log_store_->append(entry);
+    }
+
     if (ctx_->event_listener_)
     {
         ctx_->event_listener_->on_event(raft_event::become_leader);
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index c1a4ab9..209e905 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -114,7 +114,15 @@ void raft_server::handle_append_entries_resp(resp_msg& resp)
         }
 
         std::sort(matched_indexes.begin(), matched_indexes.end(), std::greater<ulong>());
-        commit(matched_indexes[(peers_.size() + 1) / 2]);
+        ulong majority_idx = matched_indexes[(peers_.size() + 1) / 2];
+
+        // only logs from current term can be committed by counting replicas, logs from previous terms are committed
+        // along with them
+        if (majority_idx > quick_commit_idx_ && term_for_log(majority_idx) == state_->get_term())
+        {
+            commit(majority_idx);
+        }
+
         need_to_catchup = p->clear_pending_commit() || resp.get_next_idx() < log_store_->next_slot();
     }
     else
-- 
2.43.0


From b8d72bc17d9ecaade14796a1959cf26d54b3a00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:53 +0000
Subject: [PATCH 02/49] fix: replication progress of a previous leadership must
 not be counted for the new one

---
 src/raft_server.cxx               | 1 +
 src/raft_server_resp_handlers.cxx | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index dfe9fb2..f0093e6 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -439,6 +439,7 @@ void raft_server::become_leader()
         for (peer_itor it = peers_.begin(); it != peers_.end(); ++it)
         {
             it->second->set_next_log_idx(log_store_->next_slot());
+            it->second->set_matched_idx(0);
             it->second->set_snapshot_in_sync(nil_snp);
             it->second->set_free();
             enable_hb_for_peer(*(it->second));
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 209e905..466f7fc 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -61,6 +61,13 @@ void raft_server::handle_peer_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>
         }
 
         // ignore the response that with lower term for safety
+        if (resp->get_term() < state_->get_term())
+        {
+            l_->info(sstrfmt("Received an outdated response at term %llu v.s. current term %llu")
+                         .fmt(resp->get_term(), state_->get_term()));
+            return;
+        }
+
         switch (resp->get_type())
         {
             case msg_type::vote_response:
-- 
2.43.0


From 572ca2e5d00dd7e01fbd83f820678f7618bc561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:53 +0000
Subject: [PATCH 03/49] fix: a follower must not commit logs that are not known
 to match leader's logs

---
 src/raft_server_req_handlers.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 41d9891..f902979 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -185,7 +185,8 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     }
 
     leader_ = req.get_src();
-    commit(req.get_commit_idx());
+    // logs after the ones covered by this request may not be the same as leader's, don't commit them
+    commit(std::min(req.get_commit_idx(), (ulong)(req.get_last_log_idx() + req.log_entries().size())));
     resp->accept(req.get_last_log_idx() + req.log_entries().size() + 1);
     return resp;
 }
-- 
2.43.0


From def9d94f5fd65d51cb90d47075c03ce6c8d5d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:53 +0000
Subject: [PATCH 04/49] fix: handle peers whose next log has been compacted, on
 both leader and follower sides

---
 src/raft_server.cxx              | 11 +++++++++--
 src/raft_server_req_handlers.cxx | 20 +++++++++++++++++---
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index f0093e6..bc89af0 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -679,7 +679,9 @@ ptr<req_msg> raft_server::create_append_entries_req(peer& p)
     }
 
     // for syncing the snapshots, for starting_idx - 1, we can check with last snapshot
-    if (last_log_idx > 0 && last_log_idx < starting_idx - 1)
+    if (last_log_idx < starting_idx - 1 ||
+        (last_log_idx > 0 && last_log_idx == starting_idx - 1 &&
+         !(last_snapshot_ && last_snapshot_->get_last_log_idx() == last_log_idx)))
     {
         return create_sync_snapshot_req(p, last_log_idx, term, commit_idx);
     }
@@ -877,7 +879,12 @@ ulong raft_server::term_for_log(ulong log_idx)
         return log_store_->term_at(log_idx);
     }
 
-    ptr<snapshot> last_snapshot(state_machine_->last_snapshot());
+    ptr<snapshot> last_snapshot(last_snapshot_);
+    if (!last_snapshot || log_idx != last_snapshot->get_last_log_idx())
+    {
+        last_snapshot = state_machine_->last_snapshot();
+    }
+
     if (!last_snapshot || log_idx != last_snapshot->get_last_log_idx())
     {
         l_->err(sstrfmt("bad log_idx %llu for retrieving the term value, kill the system to protect the system")
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index f902979..deed1d7 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -111,9 +111,16 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     // log_store_->next_slot() for the leader to quick jump to the index that might aligned
     ptr<resp_msg> resp(cs_new<resp_msg>(
         state_->get_term(), msg_type::append_entries_response, id_, req.get_src(), log_store_->next_slot()));
-    bool log_okay = req.get_last_log_idx() == 0 || (req.get_last_log_idx() < log_store_->next_slot() &&
-                                                    req.get_last_log_term() == term_for_log(req.get_last_log_idx()));
-    if (req.get_term() < state_->get_term() || !log_okay)
+    if (req.get_term() < state_->get_term())
+    {
+        return resp;
+    }
+
+    // logs that have been compacted are committed, so that they are same as leader's
+    bool log_okay = req.get_last_log_idx() < log_store_->start_index() ||
+                    (req.get_last_log_idx() < log_store_->next_slot() &&
+                     req.get_last_log_term() == term_for_log(req.get_last_log_idx()));
+    if (!log_okay)
     {
         return resp;
     }
@@ -124,6 +131,13 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         // write logs to store, start from overlapped logs
         ulong idx = req.get_last_log_idx() + 1;
         size_t log_idx = 0;
+        while (idx < log_store_->start_index() && log_idx < req.log_entries().size())
+        {
+            // this log has been compacted
+            idx++;
+            log_idx++;
+        }
+
         while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
         {
             if (log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())
-- 
2.43.0


From 95f063e6da42e0c75cd053519dfe4b8b9b90fda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:53 +0000
Subject: [PATCH 05/49] fix: compare with snapshot's term for voting when all
 logs are compacted

---
 src/raft_server_req_handlers.cxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index deed1d7..d71249b 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -208,9 +208,10 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
 ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::vote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
-                     log_store_->next_slot() - 1 <= req.get_last_log_idx());
+    ulong last_log_idx = log_store_->next_slot() - 1;
+    ulong last_log_term = term_for_log(last_log_idx);
+    bool log_okay = req.get_last_log_term() > last_log_term ||
+                    (req.get_last_log_term() == last_log_term && last_log_idx <= req.get_last_log_idx());
     bool grant = req.get_term() == state_->get_term() && log_okay &&
                  (state_->get_voted_for() == req.get_src() || state_->get_voted_for() == -1);
     if (grant)
@@ -226,9 +227,10 @@ ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 ptr<resp_msg> raft_server::handle_prevote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::prevote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
-                     log_store_->next_slot() - 1 <= req.get_last_log_idx());
+    ulong last_log_idx = log_store_->next_slot() - 1;
+    ulong last_log_term = term_for_log(last_log_idx);
+    bool log_okay = req.get_last_log_term() > last_log_term ||
+                    (req.get_last_log_term() == last_log_term && last_log_idx <= req.get_last_log_idx());
     bool grant = req.get_term() >= state_->get_term() && log_okay;
     if (ctx_->params_->defensive_prevote_)
     {
-- 
2.43.0


From b040d1c13c8e8cefde57bbc3c92d6a231796c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:53 +0000
Subject: [PATCH 06/49] fix: an election timeout that expires while winning the
 election must not stop the leader

---
 src/raft_server.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index bc89af0..12aa638 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -211,8 +211,8 @@ void raft_server::handle_election_timeout()
 
     if (role_ == srv_role::leader)
     {
-        l_->err("A leader should never encounter election timeout, illegal application state, stop the application");
-        ctx_->state_mgr_->system_exit(-1);
+        // the election timer may expire right before it is cancelled by become_leader
+        l_->info("election timeout on a leader, the timer must be expired before it is cancelled, ignore it");
         return;
     }
 
-- 
2.43.0


From 40e67430e9e1450d5f5d9fce9c3240f83d96fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:16 +0000
Subject: [PATCH 07/49] fix: prevote must be retried when some of the servers
 do not respond

---
 src/raft_server.cxx | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 12aa638..3e5526f 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -216,17 +216,11 @@ void raft_server::handle_election_timeout()
         return;
     }
 
-    if (ctx_->params_->prevote_enabled_ && role_ == srv_role::follower)
+    if (ctx_->params_->prevote_enabled_)
     {
-        if (prevote_state_ && !prevote_state_->empty())
-        {
-            l_->debug("Election timeout, but there is already a prevote ongoing, ignore this event");
-        }
-        else
-        {
-            l_->debug("Election timeout, start prevoting");
-            request_prevote();
-        }
+        // if there is a prevote ongoing, it did not get enough responses in time, start over
+        l_->debug("Election timeout, start prevoting");
+        request_prevote();
     }
     else
     {
@@ -273,11 +267,7 @@ void raft_server::request_prevote()
         return;
     }
 
-    if (!prevote_state_)
-    {
-        prevote_state_ = std::make_unique<prevote_state>();
-    }
-
+    prevote_state_ = std::make_unique<prevote_state>();
     prevote_state_->inc_accepted_votes();
     prevote_state_->add_voted_server(id_);
     {
@@ -297,6 +287,9 @@ void raft_server::request_prevote()
             it->second->send_req(req, ex_resp_handler_);
         }
     }
+
+    // start over if this round of prevote could not be completed
+    restart_election_timer();
 }
 
 void raft_server::request_vote()
@@ -432,6 +425,7 @@ void raft_server::become_leader()
     stop_election_timer();
     role_ = srv_role::leader;
     leader_ = id_;
+    prevote_state_.reset();
     srv_to_join_.reset();
     ptr<snapshot> nil_snp;
     {
-- 
2.43.0


From 5f2ccc23b38090b6a6352837609e1a35df7ce20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:16 +0000
Subject: [PATCH 08/49] fix: stop prevote when a leader is present

---
 src/raft_server_req_handlers.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index d71249b..8414763 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -101,6 +101,8 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         }
         else
         {
+            // leader is alive, stop the ongoing prevote if any
+            prevote_state_.reset();
             restart_election_timer();
         }
     }
@@ -328,6 +330,8 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
         }
         else
         {
+            // leader is alive, stop the ongoing prevote if any
+            prevote_state_.reset();
             restart_election_timer();
         }
     }
-- 
2.43.0


From 4c2fee92e70a13dcab42b6dac3d9d385d541f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:16 +0000
Subject: [PATCH 09/49] fix: learn newer term from responses of extended
 requests

---
 src/raft_server_resp_handlers.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 466f7fc..466c7ac 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -307,6 +307,12 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
                       resp->get_term(),
                       resp->get_next_idx()));
 
+    // if term is updated, no more action is required
+    if (update_term(resp->get_term()))
+    {
+        return;
+    }
+
     switch (resp->get_type())
     {
         case msg_type::sync_log_response:
-- 
2.43.0


From f6d8724678fae4fabac8dc7e6384ea16294515a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:16 +0000
Subject: [PATCH 10/49] fix: is_leader must check the responses of this
 server's own peers every time

---
 src/raft_server.cxx | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 3e5526f..1ee21b0 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1062,10 +1062,8 @@ ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
 
 bool raft_server::is_leader() const
 {
-    static volatile int32 time_elasped_since_quorum_resp(std::numeric_limits<int32>::max());
     read_lock(peers_lock_);
-    if (role_ == srv_role::leader && peers_.size() > 0 &&
-        time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
+    if (role_ == srv_role::leader && peers_.size() > 0)
     {
         std::vector<time_point> peer_resp_times;
         for (auto& peer : peers_)
@@ -1074,10 +1072,9 @@ bool raft_server::is_leader() const
         }
 
         std::sort(peer_resp_times.begin(), peer_resp_times.end());
-        time_elasped_since_quorum_resp =
-            static_cast<int32>(std::chrono::duration_cast<std::chrono::milliseconds>(
-                                   system_clock::now() - peer_resp_times[peers_.size() / 2])
-                                   .count());
+        auto time_elasped_since_quorum_resp = std::chrono::duration_cast<std::chrono::milliseconds>(
+                                                  system_clock::now() - peer_resp_times[peers_.size() / 2])
+                                                  .count();
         if (time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
         {
             return false;
-- 
2.43.0


From 656c06817b75110c5ccedab1ae2df35bfe12b200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:16 +0000
Subject: [PATCH 11/49] fix: replicate_log must append as the leader of current
 term, pre-commit the log and tell that it is accepted

---
 src/raft_server.cxx | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 1ee21b0..1f26ffd 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1086,6 +1086,7 @@ bool raft_server::is_leader() const
 
 bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cookie_tag)
 {
+    recur_lock(lock_);
     if (!is_leader())
     {
         return false;
@@ -1097,11 +1098,8 @@ bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cooki
         entry->set_cookie(cookie_tag, cookie);
     }
 
-    log_store_->append(entry);
-    {
-        recur_lock(lock_);
-        request_append_entries();
-    }
-
-    return false;
+    ulong log_idx = log_store_->append(entry);
+    state_machine_->pre_commit(log_idx, entry->get_buf(), entry->get_cookie());
+    request_append_entries();
+    return true;
 }
-- 
2.43.0


From 91438f2fe469c532473f5a161a32ac51e5f865ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:55 +0000
Subject: [PATCH 12/49] fix: only a leader could change the configuration, and
 only one change could be made at a time

---
 src/raft_server_req_handlers.cxx  | 13 +++++++++++++
 src/raft_server_resp_handlers.cxx |  7 ++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 8414763..cfedf7a 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -560,6 +560,13 @@ void raft_server::sync_log_to_new_srv(ulong start_idx)
     int32 gap = (int32)(quick_commit_idx_ - start_idx);
     if (gap < ctx_->params_->log_sync_stop_gap_)
     {
+        if (config_changing_ || config_->get_server(srv_to_join_->get_id()))
+        {
+            l_->info(lstrfmt("server %d could not be added for now, drop the request").fmt(srv_to_join_->get_id()));
+            srv_to_join_.reset();
+            return;
+        }
+
         l_->info(lstrfmt("LogSync is done for server %d with log gap %d, now put the server into cluster")
                      .fmt(srv_to_join_->get_id(), gap));
         ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_log_idx());
@@ -655,6 +662,12 @@ ptr<resp_msg> raft_server::handle_leave_cluster_req(req_msg& req)
 
 void raft_server::rm_srv_from_cluster(int32 srv_id)
 {
+    if (role_ != srv_role::leader || config_changing_ || !config_->get_server(srv_id))
+    {
+        l_->info(sstrfmt("server %d could not be removed for now, drop the request").fmt(srv_id));
+        return;
+    }
+
     ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_log_idx());
     for (cluster_config::const_srv_itor it = config_->get_servers().begin(); it != config_->get_servers().end(); ++it)
     {
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 466c7ac..6c28a29 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -437,6 +437,12 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                     l_->info(lstrfmt("rpc failed again for the removing server (%d), will remove this server directly")
                                  .fmt(p->get_id()));
 
+                    if (role_ != srv_role::leader || config_changing_)
+                    {
+                        l_->info("configuration is being changed, drop the request");
+                        return;
+                    }
+
                     /**
                      * In case of there are only two servers in the cluster, it safe to remove the server directly from
                      * peers as at most one config change could happen at a time prove: assume there could be two config
@@ -469,7 +475,6 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                 {
                     l_->info(lstrfmt("rpc failed again for the new coming server (%d), will stop retry for this server")
                                  .fmt(p->get_id()));
-                    config_changing_ = false;
                     srv_to_join_.reset();
                 }
             }
-- 
2.43.0


From 341a3ef7425694c6f3c6fda91cbef25533b7e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:55 +0000
Subject: [PATCH 13/49] fix: responses from another server must not be taken as
 ones from the server to join

---
 src/raft_server_resp_handlers.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 6c28a29..6e12908 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -316,7 +316,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
     switch (resp->get_type())
     {
         case msg_type::sync_log_response:
-            if (srv_to_join_)
+            if (srv_to_join_ && srv_to_join_->get_id() == resp->get_src())
             {
                 // we are reusing heartbeat interval value to indicate when to stop retry
                 srv_to_join_->resume_hb_speed();
@@ -326,7 +326,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             }
             break;
         case msg_type::join_cluster_response:
-            if (srv_to_join_)
+            if (srv_to_join_ && srv_to_join_->get_id() == resp->get_src())
             {
                 if (resp->get_accepted())
                 {
@@ -355,7 +355,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             break;
         case msg_type::install_snapshot_response:
         {
-            if (!srv_to_join_)
+            if (!srv_to_join_ || srv_to_join_->get_id() != resp->get_src())
             {
                 l_->info("no server to join, the response must be very old.");
                 return;
@@ -425,7 +425,7 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
         }
         else
         {
-            p = srv_to_join_;
+            p = srv_to_join_ && srv_to_join_->get_id() == req->get_dst() ? srv_to_join_ : ptr<peer>();
         }
 
         if (p != nilptr)
-- 
2.43.0


From 84f9020d9d1485353e166bd5ed30fae904f3e427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:55 +0000
Subject: [PATCH 14/49] fix: joining a cluster must survive restarts of the new
 server, rpc failures and leader changes

---
 src/raft_server_req_handlers.cxx  |  8 ++++++++
 src/raft_server_resp_handlers.cxx | 26 ++++++++++++++++++++------
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index cfedf7a..fcc768b 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -430,6 +430,14 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
 
 void raft_server::on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req)
 {
+    recur_lock(lock_);
+    if (role_ != srv_role::leader || req->get_term() != state_->get_term() ||
+        (req->get_type() != msg_type::leave_cluster_request && p != srv_to_join_))
+    {
+        l_->debug(sstrfmt("no need to retry the request %s for %d").fmt(__msg_type_str[req->get_type()], p->get_id()));
+        return;
+    }
+
     l_->debug(sstrfmt("retry the request %s for %d").fmt(__msg_type_str[req->get_type()], p->get_id()));
     p->send_req(req, ex_resp_handler_);
 }
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 6e12908..b179aad 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -320,6 +320,13 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             {
                 // we are reusing heartbeat interval value to indicate when to stop retry
                 srv_to_join_->resume_hb_speed();
+                if (!resp->get_accepted())
+                {
+                    l_->debug("new server is not in log syncing mode, it may be restarted, invite it again");
+                    invite_srv_to_join_cluster();
+                    break;
+                }
+
                 srv_to_join_->set_next_log_idx(resp->get_next_idx());
                 srv_to_join_->set_matched_idx(resp->get_next_idx() - 1);
                 sync_log_to_new_srv(resp->get_next_idx());
@@ -331,11 +338,13 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
                 if (resp->get_accepted())
                 {
                     l_->debug("new server confirms it will join, start syncing logs to it");
+                    srv_to_join_->set_next_log_idx(resp->get_next_idx());
                     sync_log_to_new_srv(resp->get_next_idx());
                 }
                 else
                 {
                     l_->debug("new server cannot accept the invitation, give up");
+                    srv_to_join_.reset();
                 }
             }
             else
@@ -363,16 +372,15 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
 
             if (!resp->get_accepted())
             {
-                l_->info("peer doesn't accept the snapshot installation request");
+                l_->info("peer doesn't accept the snapshot installation request, invite it again");
+                invite_srv_to_join_cluster();
                 return;
             }
 
             ptr<snapshot_sync_ctx> sync_ctx = srv_to_join_->get_snapshot_sync_ctx();
             if (sync_ctx == nilptr)
             {
-                l_->err("Bug! SnapshotSyncContext must not be null");
-                ctx_->state_mgr_->system_exit(-1);
-                ::exit(-1);
+                l_->info("no snapshot is being synced to the new server, the response must be very old.");
                 return;
             }
 
@@ -410,8 +418,14 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
 {
     l_->debug(lstrfmt("receive an rpc error response from peer server, %s").fmt(err.what()));
     ptr<req_msg> req = err.req();
+    if (role_ != srv_role::leader || req->get_term() != state_->get_term())
+    {
+        // the request was made by a leader of previous terms
+        return;
+    }
+
     if (req->get_type() == msg_type::sync_log_request || req->get_type() == msg_type::join_cluster_request ||
-        req->get_type() == msg_type::leave_cluster_request)
+        req->get_type() == msg_type::leave_cluster_request || req->get_type() == msg_type::install_snapshot_request)
     {
         ptr<peer> p;
         if (req->get_type() == msg_type::leave_cluster_request)
@@ -437,7 +451,7 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                     l_->info(lstrfmt("rpc failed again for the removing server (%d), will remove this server directly")
                                  .fmt(p->get_id()));
 
-                    if (role_ != srv_role::leader || config_changing_)
+                    if (config_changing_)
                     {
                         l_->info("configuration is being changed, drop the request");
                         return;
-- 
2.43.0


From f2edf530577e9ed409ec9afbe272d3e30c011961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:55 +0000
Subject: [PATCH 15/49] fix: a joining server must keep its vote, commit index
 and term, and drop logs that are not committed

---
 src/raft_server_req_handlers.cxx | 44 ++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index fcc768b..e6e326b 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -556,9 +556,14 @@ ptr<resp_msg> raft_server::handle_log_sync_req(req_msg& req)
         return resp;
     }
 
-    log_store_->apply_pack(req.get_last_log_idx() + 1, entries[0]->get_buf());
-    commit(log_store_->next_slot() - 1);
-    resp->accept(log_store_->next_slot());
+    // only committed logs are packed, and only the logs right after the committed ones could be applied
+    if (req.get_last_log_idx() == quick_commit_idx_)
+    {
+        log_store_->apply_pack(req.get_last_log_idx() + 1, entries[0]->get_buf());
+        commit(std::min(req.get_commit_idx(), log_store_->next_slot() - 1));
+    }
+
+    resp->accept(quick_commit_idx_ + 1);
     return resp;
 }
 
@@ -637,22 +642,35 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
         return resp;
     }
 
-    if (catching_up_)
+    if (req.get_term() < state_->get_term())
+    {
+        l_->info("receive a JoinClusterRequest which has lower term than this server, decline the request");
+        return resp;
+    }
+
+    ptr<cluster_config> cluster_conf(cluster_config::deserialize(entries[0]->get_buf()));
+    if (config_->get_server(id_) && config_->get_log_idx() > 0 &&
+        config_->get_log_idx() >= cluster_conf->get_log_idx())
     {
-        l_->info("this server is already in log syncing mode");
+        l_->info("this server is already a member of the cluster, the JoinClusterRequest must be very old");
         return resp;
     }
 
+    if (!update_term(req.get_term()) && role_ != srv_role::follower)
+    {
+        become_follower();
+    }
+
     catching_up_ = true;
-    role_ = srv_role::follower;
     leader_ = req.get_src();
-    sm_commit_index_ = 0;
-    quick_commit_idx_ = 0;
-    state_->set_voted_for(-1);
-    state_->set_term(req.get_term());
-    ctx_->state_mgr_->save_state(*state_);
-    reconfigure(cluster_config::deserialize(entries[0]->get_buf()));
-    resp->accept(log_store_->next_slot());
+    if (config_->get_log_idx() <= cluster_conf->get_log_idx())
+    {
+        reconfigure(cluster_conf);
+    }
+
+    // only committed logs are known to be same as the ones in the cluster
+    resp = cs_new<resp_msg>(state_->get_term(), msg_type::join_cluster_response, id_, req.get_src());
+    resp->accept(quick_commit_idx_ + 1);
     return resp;
 }
 
-- 
2.43.0


From 05cb2d9b2cd7e253074a1503b3b9adf6ec82e705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:55 +0000
Subject: [PATCH 16/49] fix: a server that is invited to join is no longer
 leaving

---
 src/raft_server_req_handlers.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index e6e326b..d4c0ead 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -662,6 +662,7 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
     }
 
     catching_up_ = true;
+    steps_to_down_ = 0;
     leader_ = req.get_src();
     if (config_->get_log_idx() <= cluster_conf->get_log_idx())
     {
-- 
2.43.0


From 77be35c8178a346518695f3f904d1569263bdf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:55 +0000
Subject: [PATCH 17/49] fix: a snapshot that is already covered must not be
 requested forever

---
 src/raft_server_req_handlers.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index d4c0ead..5978de8 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -355,6 +355,8 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
     {
         l_->warn(sstrfmt("received a snapshot (%llu) that is older than current log store")
                      .fmt(sync_req->get_snapshot().get_last_log_idx()));
+        // everything in the snapshot is already there, let the leader move on
+        resp->accept(sync_req->get_snapshot().size());
         return resp;
     }
 
-- 
2.43.0


From 4f031d81fc58888e0282ea3fb32dfb921dc36302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:55 +0000
Subject: [PATCH 18/49] fix: lost wakeups of the committing thread, and of the
 destructor that waits for it

---
 include/raft_server.hxx |  1 +
 src/raft_server.cxx     | 30 ++++++++++++++++++++++--------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index d9044fc..23b0610 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -123,6 +123,7 @@ private:
     bool config_changing_;
     bool catching_up_;
     bool stopping_;
+    bool stopped_;
     int32 steps_to_down_;
     std::atomic_bool snp_in_progress_;
     std::unique_ptr<context> ctx_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 1f26ffd..505f6bd 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -56,6 +56,7 @@ raft_server::raft_server(context* ctx)
       config_changing_(false),
       catching_up_(false),
       stopping_(false),
+      stopped_(false),
       steps_to_down_(0),
       snp_in_progress_(),
       ctx_(ctx),
@@ -146,14 +147,19 @@ raft_server::raft_server(context* ctx)
 
 raft_server::~raft_server()
 {
+    {
+        auto_lock(commit_lock_);
+        stopping_ = true;
+        commit_cv_.notify_all();
+    }
+
+    {
+        // lock_ must not be held here as the committing thread may need it
+        std::unique_lock<std::mutex> lock(stopping_lock_);
+        ready_to_stop_cv_.wait(lock, [this]() { return stopped_; });
+    }
+
     recur_lock(lock_);
-    stopping_ = true;
-    std::unique_lock<std::mutex> commit_lock(commit_lock_);
-    commit_cv_.notify_all();
-    std::unique_lock<std::mutex> lock(stopping_lock_);
-    commit_lock.unlock();
-    commit_lock.release();
-    ready_to_stop_cv_.wait(lock);
     if (election_task_)
     {
         scheduler_->cancel(election_task_);
@@ -536,6 +542,7 @@ void raft_server::commit(ulong target_idx)
 
     if (log_store_->next_slot() - 1 > sm_commit_index_ && quick_commit_idx_ > sm_commit_index_)
     {
+        auto_lock(commit_lock_);
         commit_cv_.notify_one();
     }
 }
@@ -904,13 +911,20 @@ void raft_server::commit_in_bg()
                 }
 
                 std::unique_lock<std::mutex> lock(commit_lock_);
-                commit_cv_.wait(lock);
+                commit_cv_.wait(
+                    lock,
+                    [this]()
+                    {
+                        return stopping_ || (quick_commit_idx_ > sm_commit_index_ &&
+                                             sm_commit_index_ < log_store_->next_slot() - 1);
+                    });
                 if (stopping_)
                 {
                     lock.unlock();
                     lock.release();
                     {
                         auto_lock(stopping_lock_);
+                        stopped_ = true;
                         ready_to_stop_cv_.notify_all();
                     }
 
-- 
2.43.0


From ac9d0760ddbe235ccaea9ea8cff71830c85b64b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:55 +0000
Subject: [PATCH 19/49] fix: a snapshot must be applied atomically with regard
 to committing logs, before logs are dropped

---
 include/raft_server.hxx          |  2 +
 src/raft_server.cxx              | 22 +++++++++
 src/raft_server_req_handlers.cxx | 77 +++++++++++++++++++++-----------
 3 files changed, 75 insertions(+), 26 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 23b0610..8b33cb3 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -109,6 +109,7 @@ private:
     void on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr<std::exception>& err);
     void on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req);
     ulong term_for_log(ulong log_idx);
+    bool is_config_changing(ulong end_idx);
     void commit_in_bg();
     ptr<async_result<bool>> send_msg_to_leader(ptr<req_msg>& req);
 
@@ -144,6 +145,7 @@ private:
     ptr<srv_config> conf_to_add_;
     std::recursive_mutex lock_;
     std::mutex commit_lock_;
+    std::mutex sm_lock_;
     std::mutex rpc_clients_lock_;
     std::condition_variable commit_cv_;
     std::mutex stopping_lock_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 505f6bd..ea83b67 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -76,6 +76,7 @@ raft_server::raft_server(context* ctx)
       conf_to_add_(),
       lock_(),
       commit_lock_(),
+      sm_lock_(),
       rpc_clients_lock_(),
       commit_cv_(),
       stopping_lock_(),
@@ -896,6 +897,20 @@ ulong raft_server::term_for_log(ulong log_idx)
     return last_snapshot->get_last_log_term();
 }
 
+// check if there is any configuration before end_idx (exclusive) in log store which is newer than current one
+bool raft_server::is_config_changing(ulong end_idx)
+{
+    for (ulong i = std::max(config_->get_log_idx() + 1, log_store_->start_index()); i < end_idx; ++i)
+    {
+        if (log_store_->entry_at(i)->get_val_type() == log_val_type::conf)
+        {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 void raft_server::commit_in_bg()
 {
     while (true)
@@ -934,6 +949,13 @@ void raft_server::commit_in_bg()
 
             while (sm_commit_index_ < quick_commit_idx_ && sm_commit_index_ < log_store_->next_slot() - 1)
             {
+                // a snapshot must not be applied while committing a log
+                auto_lock(sm_lock_);
+                if (sm_commit_index_ >= quick_commit_idx_ || sm_commit_index_ >= log_store_->next_slot() - 1)
+                {
+                    break;
+                }
+
                 sm_commit_index_ += 1;
                 ptr<log_entry> log_entry(log_store_->entry_at(sm_commit_index_));
                 if (log_entry->get_val_type() == log_val_type::app_log)
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 5978de8..ca0e754 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -384,39 +384,64 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
             }
 
             l_->debug("sucessfully receive a snapshot from leader");
-            if (log_store_->compact(req.get_snapshot().get_last_log_idx()))
+
+            // the committing thread may be waiting for lock_, which is held by this thread
+            std::unique_lock<std::mutex> sm_lock(sm_lock_, std::try_to_lock);
+            if (!sm_lock.owns_lock())
+            {
+                l_->info("a log is being committed, will ask the leader to retry");
+                return false;
+            }
+
+            if (req.get_snapshot().get_last_log_idx() <= sm_commit_index_)
+            {
+                l_->info("logs in the snapshot have been committed already");
+                return true;
+            }
+
+            // The state machine will not be able to commit anything before the snapshot is applied, so make this
+            // synchronously with election timer stopped as usually applying a snapshot may take a very long time
+            stop_election_timer();
+            if (!state_machine_->apply_snapshot(req.get_snapshot()))
+            {
+                l_->info("failed to apply the snapshot, to ensure the safety, will shutdown the system");
+                ctx_->state_mgr_->system_exit(-1);
+                ::exit(-1);
+                return false;
+            }
+
+            // logs must not be dropped before they are covered by the state machine
+            if (!log_store_->compact(req.get_snapshot().get_last_log_idx()))
             {
-                // The state machine will not be able to commit anything before the snapshot is applied, so make this
-                // synchronously with election timer stopped as usually applying a snapshot may take a very long time
-                stop_election_timer();
-                l_->info("successfully compact the log store, will now ask the statemachine to apply the snapshot");
-                if (!state_machine_->apply_snapshot(req.get_snapshot()))
-                {
-                    l_->info("failed to apply the snapshot after log compacted, to ensure the safety, will shutdown "
-                             "the system");
-                    ctx_->state_mgr_->system_exit(-1);
-                    ::exit(-1);
-                    return false;
-                }
+                l_->err("failed to compact the log store after snapshot applied, to ensure the safety, will shutdown "
+                        "the system");
+                ctx_->state_mgr_->system_exit(-1);
+                ::exit(-1);
+                return false;
+            }
 
+            sm_commit_index_ = req.get_snapshot().get_last_log_idx();
+            quick_commit_idx_ = std::max(quick_commit_idx_, sm_commit_index_);
+            last_snapshot_ = cs_new<snapshot>(
+                req.get_snapshot().get_last_log_idx(),
+                req.get_snapshot().get_last_log_term(),
+                req.get_snapshot().get_last_config(),
+                req.get_snapshot().size());
+            if (config_->get_log_idx() < req.get_snapshot().get_last_config()->get_log_idx())
+            {
                 reconfigure(req.get_snapshot().get_last_config());
                 ctx_->state_mgr_->save_config(*config_);
-                sm_commit_index_ = req.get_snapshot().get_last_log_idx();
-                quick_commit_idx_ = req.get_snapshot().get_last_log_idx();
-                ctx_->state_mgr_->save_state(*state_);
-                last_snapshot_ = cs_new<snapshot>(
-                    req.get_snapshot().get_last_log_idx(),
-                    req.get_snapshot().get_last_log_term(),
-                    config_,
-                    req.get_snapshot().size());
-                restart_election_timer();
-                l_->info("snapshot is successfully applied");
             }
-            else
+
+            config_changing_ = is_config_changing(log_store_->next_slot());
+            if (catching_up_ && config_->get_server(id_) != nilptr)
             {
-                l_->err("failed to compact the log store after a snapshot is received, will ask the leader to retry");
-                return false;
+                l_->info("this server is one of cluster members");
+                catching_up_ = false;
             }
+
+            restart_election_timer();
+            l_->info("snapshot is successfully applied");
         }
     }
     catch (...)
-- 
2.43.0


From 6956e84ae8ce9b7a3ba759d34c26dc704d938e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:55 +0000
Subject: [PATCH 20/49] fix: recover from a crash in the middle of installing a
 snapshot

---
 src/raft_server.cxx | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index ea83b67..0408d47 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -100,6 +100,26 @@ raft_server::raft_server(context* ctx)
         state_->set_voted_for(-1);
     }
 
+    if (last_snapshot_)
+    {
+        // this server may be stopped after a snapshot is applied and before the logs are dropped
+        ulong snp_idx = last_snapshot_->get_last_log_idx();
+        if (log_store_->next_slot() <= snp_idx ||
+            (log_store_->start_index() <= snp_idx &&
+             log_store_->term_at(snp_idx) != last_snapshot_->get_last_log_term()))
+        {
+            l_->info(sstrfmt("compact the log store for the snapshot at index %llu").fmt(snp_idx));
+            log_store_->compact(snp_idx);
+        }
+
+        // same for the configuration in the snapshot
+        if (config_->get_log_idx() < last_snapshot_->get_last_config()->get_log_idx())
+        {
+            config_ = last_snapshot_->get_last_config();
+            ctx_->state_mgr_->save_config(*config_);
+        }
+    }
+
     /**
      * I found this implementation is also a victim of bug https://groups.google.com/forum/#!topic/raft-dev/t4xj6dJTP6E
      * As the implementation is based on Diego's thesis
-- 
2.43.0


From 19097012c36065852b16e0fb664e4076d9dea624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:55 +0000
Subject: [PATCH 21/49] fix: keep the snapshot that can be sent to peers, and
 never go back to an older one

---
 src/raft_server.cxx | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 0408d47..35f9e01 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -581,25 +581,33 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
     try
     {
         bool f = false;
-        if ((!last_snapshot_ ||
-             (committed_idx - last_snapshot_->get_last_log_idx()) >= (ulong)ctx_->params_->snapshot_distance_) &&
+        ptr<snapshot> last_snp;
+        ptr<cluster_config> conf;
+        {
+            recur_lock(lock_);
+            last_snp = last_snapshot_;
+            conf = config_;
+        }
+
+        if ((!last_snp ||
+             committed_idx >= last_snp->get_last_log_idx() + (ulong)ctx_->params_->snapshot_distance_) &&
             snp_in_progress_.compare_exchange_strong(f, true))
         {
             snapshot_in_action = true;
             l_->info(sstrfmt("creating a snapshot for index %llu").fmt(committed_idx));
 
             // get the latest configuration info
-            ptr<cluster_config> conf(config_);
             while (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() >= log_store_->start_index())
             {
                 ptr<log_entry> conf_log(log_store_->entry_at(conf->get_prev_log_idx()));
+                conf_log->get_buf().pos(0);
                 conf = cluster_config::deserialize(conf_log->get_buf());
             }
 
             if (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() > 0 &&
                 conf->get_prev_log_idx() < log_store_->start_index())
             {
-                if (!last_snapshot_)
+                if (!last_snp)
                 {
                     l_->err("No snapshot could be found while no configuration cannot be found in current committed "
                             "logs, this is a system error, exiting");
@@ -607,7 +615,7 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
                     return;
                 }
 
-                conf = last_snapshot_->get_last_config();
+                conf = last_snp->get_last_config();
             }
             else if (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() == 0)
             {
@@ -656,8 +664,19 @@ void raft_server::on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr
             recur_lock(lock_);
             l_->debug("snapshot created, compact the log store");
 
-            last_snapshot_ = s;
-            if (s->get_last_log_idx() > (ulong)ctx_->params_->reserved_log_items_)
+            // only the state machine knows the size of the snapshot
+            ptr<snapshot> snp(state_machine_->last_snapshot());
+            if (!snp || snp->get_last_log_idx() < s->get_last_log_idx())
+            {
+                snp = s;
+            }
+
+            if (!last_snapshot_ || last_snapshot_->get_last_log_idx() < snp->get_last_log_idx())
+            {
+                last_snapshot_ = snp;
+            }
+
+            if (s->get_last_log_idx() >= log_store_->start_index() + (ulong)ctx_->params_->reserved_log_items_)
             {
                 log_store_->compact(s->get_last_log_idx() - (ulong)ctx_->params_->reserved_log_items_);
             }
-- 
2.43.0


From db5b0840b3ff5a8dd7ddf9ec206ba0b03ff4155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:42 +0000
Subject: [PATCH 22/49] fix: all logs that are dropped by an overwrite must be
 rolled back

---
 src/raft_server_req_handlers.cxx | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index ca0e754..cadbc87 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -153,20 +153,34 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
             }
         }
 
-        // dealing with overwrites
-        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        // all logs since the first conflict one are dropped, roll them back
+        if (log_idx < req.log_entries().size())
         {
-            ptr<log_entry> old_entry(log_store_->entry_at(idx));
-            if (old_entry->get_val_type() == log_val_type::app_log)
+            bool conf_dropped = false;
+            for (ulong old_idx = log_store_->next_slot() - 1; old_idx >= idx; --old_idx)
             {
-                state_machine_->rollback(idx, old_entry->get_buf(), old_entry->get_cookie());
+                ptr<log_entry> old_entry(log_store_->entry_at(old_idx));
+                if (old_entry->get_val_type() == log_val_type::app_log)
+                {
+                    state_machine_->rollback(old_idx, old_entry->get_buf(), old_entry->get_cookie());
+                }
+                else if (old_entry->get_val_type() == log_val_type::conf)
+                {
+                    l_->info(
+                        sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
+                    conf_dropped = true;
+                }
             }
-            else if (old_entry->get_val_type() == log_val_type::conf)
+
+            if (conf_dropped)
             {
-                l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
-                config_changing_ = false;
+                config_changing_ = is_config_changing(idx);
             }
+        }
 
+        // dealing with overwrites
+        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        {
             ptr<log_entry> entry = req.log_entries().at(log_idx);
             log_store_->write_at(idx, entry);
             if (entry->get_val_type() == log_val_type::app_log)
-- 
2.43.0


From a68a7a624df4d84cb8450a5c760910cbf6f0b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:42 +0000
Subject: [PATCH 23/49] fix: committing an old configuration must not take the
 place of a newer one

---
 src/raft_server.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 35f9e01..d81e690 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1007,17 +1007,22 @@ void raft_server::commit_in_bg()
                     log_entry->get_buf().pos(0);
                     ptr<cluster_config> new_conf = cluster_config::deserialize(log_entry->get_buf());
                     l_->info(sstrfmt("config at index %llu is committed").fmt(new_conf->get_log_idx()));
-                    ctx_->state_mgr_->save_config(*new_conf);
-                    config_changing_ = false;
+                    if (config_->get_log_idx() <= new_conf->get_log_idx())
+                    {
+                        ctx_->state_mgr_->save_config(*new_conf);
+                    }
+
                     if (config_->get_log_idx() < new_conf->get_log_idx())
                     {
                         reconfigure(new_conf);
                     }
 
-                    if (catching_up_ && new_conf->get_server(id_) != nilptr)
+                    config_changing_ = is_config_changing(log_store_->next_slot());
+                    if (catching_up_ && config_->get_server(id_) != nilptr)
                     {
                         l_->info("this server is committed as one of cluster members");
                         catching_up_ = false;
+                        restart_election_timer();
                     }
                 }
 
-- 
2.43.0


From 1f6ffd8269d88cfbd691c0f0ffcfacadcaabdded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:42 +0000
Subject: [PATCH 24/49] fix: initial configuration must not be taken as
 committed before it is

---
 src/raft_server.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index d81e690..dec4b16 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -467,10 +467,12 @@ void raft_server::become_leader()
         }
     }
 
-    if (config_->get_log_idx() == 0)
+    if (config_->get_log_idx() == 0 && !config_changing_)
     {
-        config_->set_log_idx(log_store_->next_slot());
-        bufptr conf_buf = config_->serialize();
+        // current configuration takes effect as an indexed one only after it is committed
+        ptr<cluster_config> initial_conf = cs_new<cluster_config>(log_store_->next_slot(), 0);
+        initial_conf->get_servers() = config_->get_servers();
+        bufptr conf_buf = initial_conf->serialize();
         ptr<log_entry> entry(cs_new<log_entry>(state_->get_term(), std::move(conf_buf), log_val_type::conf));
         log_store_->append(entry);
         l_->info("save initial config to log store");
-- 
2.43.0


From 7e903cb6ac588d66d0d93f6067c9987e3ca4e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:42 +0000
Subject: [PATCH 25/49] fix: a peer must not be used after it is removed

---
 include/peer.hxx                 |  3 ++-
 include/raft_server.hxx          |  2 +-
 src/peer.cxx                     |  6 ++++--
 src/raft_server.cxx              | 22 +++++++++++++++++++---
 src/raft_server_req_handlers.cxx |  3 ++-
 5 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/peer.hxx b/include/peer.hxx
index 9418c0e..34d2d98 100644
--- a/include/peer.hxx
+++ b/include/peer.hxx
@@ -17,13 +17,14 @@
 #ifndef _PEER_HXX_
 #define _PEER_HXX_
 
+#include <memory>
 #include "context.hxx"
 #include "snapshot_sync_ctx.hxx"
 #include "timer_task.hxx"
 
 namespace cornerstone
 {
-class peer
+class peer : public std::enable_shared_from_this<peer>
 {
 public:
     peer(ptr<srv_config>& config, const context& ctx, timer_task<peer&>::executor& hb_exec)
diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 8b33cb3..3361a18 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -100,7 +100,7 @@ private:
     void enable_hb_for_peer(peer& p);
     void restart_election_timer();
     void stop_election_timer();
-    void handle_hb_timeout(peer& peer);
+    void handle_hb_timeout(int32 peer_id);
     void handle_election_timeout();
     void sync_log_to_new_srv(ulong start_idx);
     void invite_srv_to_join_cluster();
diff --git a/src/peer.cxx b/src/peer.cxx
index c87f893..562ae98 100644
--- a/src/peer.cxx
+++ b/src/peer.cxx
@@ -21,8 +21,10 @@ using namespace cornerstone;
 void peer::send_req(ptr<req_msg>& req, rpc_handler& handler)
 {
     ptr<rpc_result> pending = cs_new<rpc_result>(handler);
-    rpc_handler h = [this, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
-    { this->handle_rpc_result(req, pending, resp, ex); };
+    // this peer may be removed before the response arrives
+    ptr<peer> self(shared_from_this());
+    rpc_handler h = [self, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
+    { self->handle_rpc_result(req, pending, resp, ex); };
     rpc_->send(req, h);
 }
 
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index dec4b16..2453aee 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -153,7 +153,8 @@ raft_server::raft_server(context* ctx)
         if ((*it)->get_id() != id_)
         {
             write_lock(peers_lock_);
-            timer_task<peer&>::executor exec = [this](peer& p) { this->handle_hb_timeout(p); };
+            int32 peer_id = (*it)->get_id();
+            timer_task<peer&>::executor exec = [this, peer_id](peer&) { this->handle_hb_timeout(peer_id); };
             peers_.insert(std::make_pair(
                 (*it)->get_id(),
                 cs_new<peer>(*it, *ctx_, exec)));
@@ -390,9 +391,23 @@ bool raft_server::request_append_entries(peer& p)
     return false;
 }
 
-void raft_server::handle_hb_timeout(peer& p)
+void raft_server::handle_hb_timeout(int32 peer_id)
 {
     recur_lock(lock_);
+    ptr<peer> hb_peer;
+    {
+        read_lock(peers_lock_);
+        peer_itor it = peers_.find(peer_id);
+        if (it == peers_.end())
+        {
+            l_->info(sstrfmt("server %d is removed, ignore the heartbeat event").fmt(peer_id));
+            return;
+        }
+
+        hb_peer = it->second;
+    }
+
+    peer& p = *hb_peer;
     l_->debug(sstrfmt("Heartbeat timeout for %d").fmt(p.get_id()));
     if (role_ == srv_role::leader)
     {
@@ -786,7 +801,8 @@ void raft_server::reconfigure(const ptr<cluster_config>& new_config)
     for (std::vector<ptr<srv_config>>::const_iterator it = srvs_added.begin(); it != srvs_added.end(); ++it)
     {
         ptr<srv_config> srv_added(*it);
-        timer_task<peer&>::executor exec = [this](peer& p) { this->handle_hb_timeout(p); };
+        int32 peer_id = srv_added->get_id();
+        timer_task<peer&>::executor exec = [this, peer_id](peer&) { this->handle_hb_timeout(peer_id); };
         ptr<peer> p = cs_new<peer>(srv_added, *ctx_, exec);
         p->set_next_log_idx(log_store_->next_slot());
 
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index cadbc87..8309dc9 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -574,7 +574,8 @@ ptr<resp_msg> raft_server::handle_add_srv_req(req_msg& req)
     }
 
     conf_to_add_ = std::move(srv_conf);
-    timer_task<peer&>::executor exec = [this](peer& p) { this->handle_hb_timeout(p); };
+    int32 peer_id = conf_to_add_->get_id();
+    timer_task<peer&>::executor exec = [this, peer_id](peer&) { this->handle_hb_timeout(peer_id); };
     srv_to_join_ = cs_new<peer>(conf_to_add_, *ctx_, exec);
     invite_srv_to_join_cluster();
     resp->accept(log_store_->next_slot());
-- 
2.43.0


From f2ab7ad201e9a66fadf04127949934a8c798726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:42 +0000
Subject: [PATCH 26/49] fix: a server that is not a member of the cluster must
 not start an election or step down

---
 src/raft_server.cxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 2453aee..fc2c2ab 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -237,6 +237,13 @@ void raft_server::handle_election_timeout()
         return;
     }
 
+    if (!config_->get_server(id_))
+    {
+        l_->info("this server is not a member of the cluster, ignore the election timeout");
+        restart_election_timer();
+        return;
+    }
+
     if (role_ == srv_role::leader)
     {
         // the election timer may expire right before it is cancelled by become_leader
@@ -828,7 +835,13 @@ void raft_server::reconfigure(const ptr<cluster_config>& new_config)
     for (std::vector<int32>::const_iterator it = srvs_removed.begin(); it != srvs_removed.end(); ++it)
     {
         int32 srv_removed = *it;
-        if (srv_removed == id_ && !catching_up_)
+        if (srv_removed == id_ && (catching_up_ || config_->get_log_idx() == 0 || !config_->get_server(id_)))
+        {
+            // this server is not a member yet
+            continue;
+        }
+
+        if (srv_removed == id_)
         {
             // this server is removed from cluster
             ctx_->state_mgr_->save_config(*new_config);
-- 
2.43.0


From 891467c0c28bb96c6e1f1ba7dd6628e4a6c89760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:42 +0000
Subject: [PATCH 27/49] fix: never run for election with a configuration that
 is two changes behind

---
 src/raft_server.cxx | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index fc2c2ab..2481a19 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -136,14 +136,24 @@ raft_server::raft_server(context* ctx)
      * - 1) + Majority(S0) > S0 => Vote(A) < Majority(S0)
      * -|
      */
-    for (ulong i = std::max(sm_commit_index_ + 1, log_store_->start_index()); i < log_store_->next_slot(); ++i)
+    ptr<cluster_config> uncommitted_conf;
+    for (ulong i = std::max(config_->get_log_idx() + 1, log_store_->start_index()); i < log_store_->next_slot(); ++i)
     {
         ptr<log_entry> entry(log_store_->entry_at(i));
         if (entry->get_val_type() == log_val_type::conf)
         {
             l_->info(sstrfmt("detect a configuration change that is not committed yet at index %llu").fmt(i));
             config_changing_ = true;
-            break;
+            if (uncommitted_conf)
+            {
+                // a configuration is appended only after the previous one is committed
+                config_ = uncommitted_conf;
+                ctx_->state_mgr_->save_config(*config_);
+                quick_commit_idx_ = std::max(quick_commit_idx_, config_->get_log_idx());
+            }
+
+            entry->get_buf().pos(0);
+            uncommitted_conf = cluster_config::deserialize(entry->get_buf());
         }
     }
 
@@ -244,6 +254,13 @@ void raft_server::handle_election_timeout()
         return;
     }
 
+    if (config_changing_ && is_config_changing(quick_commit_idx_ + 1))
+    {
+        l_->info("there is a committed configuration that is not applied yet, ignore the election timeout");
+        restart_election_timer();
+        return;
+    }
+
     if (role_ == srv_role::leader)
     {
         // the election timer may expire right before it is cancelled by become_leader
-- 
2.43.0


From fbef6773b7563178caf223220a812a8c1ea347d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:42 +0000
Subject: [PATCH 28/49] fix: current configuration must be read with lock_ held

---
 src/raft_server.cxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 2481a19..3cf15b4 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1127,8 +1127,14 @@ ptr<async_result<bool>> raft_server::remove_srv(const int srv_id)
 ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
 {
     typedef std::unordered_map<int32, ptr<rpc_client>>::const_iterator rpc_client_itor;
-    int32 leader_id = leader_;
-    ptr<cluster_config> cluster = config_;
+    int32 leader_id(-1);
+    ptr<cluster_config> cluster;
+    {
+        recur_lock(lock_);
+        leader_id = leader_;
+        cluster = config_;
+    }
+
     bool result(false);
     if (leader_id == -1)
     {
@@ -1148,7 +1154,7 @@ ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
         rpc_client_itor itor = rpc_clients_.find(leader_id);
         if (itor == rpc_clients_.end())
         {
-            ptr<srv_config> srv_conf = config_->get_server(leader_id);
+            ptr<srv_config> srv_conf = cluster->get_server(leader_id);
             if (!srv_conf)
             {
                 return cs_new<async_result<bool>>(result);
-- 
2.43.0


From 9a462439a310e9e7c3c7f7febe71e75e2597b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:35 +0000
Subject: [PATCH 29/49] fix: logs covered by the last snapshot are committed

---
 src/raft_server.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 3cf15b4..89d4f60 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -112,6 +112,11 @@ raft_server::raft_server(context* ctx)
             log_store_->compact(snp_idx);
         }
 
+        // logs other than application logs are not passed to the state machine, so that it may only know the index of
+        // an earlier log
+        sm_commit_index_ = std::max(sm_commit_index_, snp_idx);
+        quick_commit_idx_ = sm_commit_index_;
+
         // same for the configuration in the snapshot
         if (config_->get_log_idx() < last_snapshot_->get_last_config()->get_log_idx())
         {
-- 
2.43.0


From 569fd8e9212733e96bbdb9fd402d40d0664a9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:58 +0000
Subject: [PATCH 30/49] fix: find the configuration for a snapshot while
 joining a cluster

---
 src/raft_server.cxx | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 89d4f60..e968466 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -643,17 +643,21 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
             l_->info(sstrfmt("creating a snapshot for index %llu").fmt(committed_idx));
 
             // get the latest configuration info
-            while (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() >= log_store_->start_index())
+            if (conf->get_log_idx() > committed_idx)
             {
-                ptr<log_entry> conf_log(log_store_->entry_at(conf->get_prev_log_idx()));
-                conf_log->get_buf().pos(0);
-                conf = cluster_config::deserialize(conf_log->get_buf());
-            }
+                // the configurations before current one may not be in log store when this server is joining the cluster
+                conf.reset();
+                for (ulong i = committed_idx; !conf && i >= log_store_->start_index(); --i)
+                {
+                    ptr<log_entry> conf_log(log_store_->entry_at(i));
+                    if (conf_log->get_val_type() == log_val_type::conf)
+                    {
+                        conf_log->get_buf().pos(0);
+                        conf = cluster_config::deserialize(conf_log->get_buf());
+                    }
+                }
 
-            if (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() > 0 &&
-                conf->get_prev_log_idx() < log_store_->start_index())
-            {
-                if (!last_snp)
+                if (!conf && !last_snp)
                 {
                     l_->err("No snapshot could be found while no configuration cannot be found in current committed "
                             "logs, this is a system error, exiting");
@@ -661,13 +665,10 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
                     return;
                 }
 
-                conf = last_snp->get_last_config();
-            }
-            else if (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() == 0)
-            {
-                l_->err("BUG!!! stop the system, there must be a configuration at index one");
-                ctx_->state_mgr_->system_exit(-1);
-                return;
+                if (!conf)
+                {
+                    conf = last_snp->get_last_config();
+                }
             }
 
             ulong log_term_to_compact = log_store_->term_at(committed_idx);
-- 
2.43.0


From aca97b5e9d84f79fcddf14d275da8ad9f5a0ca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:32 +0000
Subject: [PATCH 31/49] fix: a server that cannot start an election must not
 deny prevotes forever when there is no leader

---
 src/raft_server.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index e968466..a56d30e 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -217,6 +217,12 @@ raft_server::~raft_server()
 void raft_server::handle_election_timeout()
 {
     recur_lock(lock_);
+    if (role_ != srv_role::leader && !prevote_state_)
+    {
+        // no matter this server could start an election or not, it does not hear from leader, don't be defensive
+        prevote_state_ = std::make_unique<prevote_state>();
+    }
+
     if (steps_to_down_ > 0)
     {
         if (--steps_to_down_ == 0)
@@ -462,12 +468,6 @@ void raft_server::handle_hb_timeout(int32 peer_id)
 
 void raft_server::restart_election_timer()
 {
-    // don't start the election timer while this server is still catching up the logs
-    if (catching_up_)
-    {
-        return;
-    }
-
     if (election_task_)
     {
         scheduler_->cancel(election_task_);
-- 
2.43.0


From aea75aed9def702043bd49faa1a74ce157591b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:46 +0000
Subject: [PATCH 32/49] fix: a response for an old snapshot must not be taken
 as the one for the snapshot being synced

---
 include/raft_server.hxx           |  6 +++++
 src/raft_server.cxx               | 20 ++++++++++++++
 src/raft_server_req_handlers.cxx  | 13 ++++++---
 src/raft_server_resp_handlers.cxx | 44 +++++++++++++++++++++++++++++++
 4 files changed, 80 insertions(+), 3 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 3361a18..2bada67 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -87,6 +87,12 @@ private:
     void handle_voting_resp(resp_msg& resp);
     void handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>& err);
     void handle_ext_resp_err(rpc_exception& err);
+    bool is_outdated_snapshot_resp(
+        peer& p,
+        ulong snp_idx,
+        const ptr<resp_msg>& resp,
+        const ptr<rpc_exception>& err);
+    void send_req_to_new_srv(ptr<req_msg>& req);
     void handle_prevote_resp(resp_msg& resp);
     ptr<req_msg> create_append_entries_req(peer& p);
     ptr<req_msg> create_sync_snapshot_req(peer& p, ulong last_log_idx, ulong term, ulong commit_idx);
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index a56d30e..aef6d4b 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -418,6 +418,26 @@ bool raft_server::request_append_entries(peer& p)
     if (p.make_busy())
     {
         ptr<req_msg> msg = create_append_entries_req(p);
+        if (msg->get_type() == msg_type::install_snapshot_request)
+        {
+            // the snapshot to be synced may be changed before the response is handled
+            ptr<peer> snp_peer(p.shared_from_this());
+            ulong snp_idx = msg->get_last_log_idx();
+            rpc_handler snp_resp_handler =
+                [this, snp_peer, snp_idx](ptr<resp_msg>& resp, const ptr<rpc_exception>& e) mutable
+            {
+                recur_lock(lock_);
+                if (is_outdated_snapshot_resp(*snp_peer, snp_idx, resp, e))
+                {
+                    return;
+                }
+
+                this->handle_peer_resp(resp, e);
+            };
+            p.send_req(msg, snp_resp_handler);
+            return true;
+        }
+
         p.send_req(msg, resp_handler_);
         return true;
     }
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 8309dc9..bcf417f 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -480,7 +480,14 @@ void raft_server::on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req)
     }
 
     l_->debug(sstrfmt("retry the request %s for %d").fmt(__msg_type_str[req->get_type()], p->get_id()));
-    p->send_req(req, ex_resp_handler_);
+    if (req->get_type() == msg_type::leave_cluster_request)
+    {
+        p->send_req(req, ex_resp_handler_);
+    }
+    else
+    {
+        send_req_to_new_srv(req);
+    }
 }
 
 ptr<resp_msg> raft_server::handle_rm_srv_req(req_msg& req)
@@ -657,7 +664,7 @@ void raft_server::sync_log_to_new_srv(ulong start_idx)
             cs_new<log_entry>(state_->get_term(), std::move(log_pack), log_val_type::log_pack));
     }
 
-    srv_to_join_->send_req(req, ex_resp_handler_);
+    send_req_to_new_srv(req);
 }
 
 void raft_server::invite_srv_to_join_cluster()
@@ -671,7 +678,7 @@ void raft_server::invite_srv_to_join_cluster()
         log_store_->next_slot() - 1,
         quick_commit_idx_));
     req->log_entries().push_back(cs_new<log_entry>(state_->get_term(), config_->serialize(), log_val_type::conf));
-    srv_to_join_->send_req(req, ex_resp_handler_);
+    send_req_to_new_srv(req);
 }
 
 ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index b179aad..2099581 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -290,6 +290,50 @@ void raft_server::handle_prevote_resp(resp_msg& resp)
     }
 }
 
+bool raft_server::is_outdated_snapshot_resp(
+    peer& p,
+    ulong snp_idx,
+    const ptr<resp_msg>& resp,
+    const ptr<rpc_exception>& err)
+{
+    if (err || !resp->get_accepted())
+    {
+        return false;
+    }
+
+    ptr<snapshot_sync_ctx> sync_ctx = p.get_snapshot_sync_ctx();
+    if (sync_ctx && sync_ctx->get_snapshot()->get_last_log_idx() == snp_idx)
+    {
+        return false;
+    }
+
+    l_->info(sstrfmt("snapshot %llu is no longer being synced to %d, drop the response").fmt(snp_idx, p.get_id()));
+    return true;
+}
+
+void raft_server::send_req_to_new_srv(ptr<req_msg>& req)
+{
+    ptr<peer> p(srv_to_join_);
+    rpc_handler handler = [this, p, req](ptr<resp_msg>& resp, const ptr<rpc_exception>& e) mutable
+    {
+        recur_lock(lock_);
+        if (p != srv_to_join_)
+        {
+            l_->info(sstrfmt("server %d is no longer joining, drop the response").fmt(p->get_id()));
+            return;
+        }
+
+        if (req->get_type() == msg_type::install_snapshot_request &&
+            is_outdated_snapshot_resp(*p, req->get_last_log_idx(), resp, e))
+        {
+            return;
+        }
+
+        this->handle_ext_resp(resp, e);
+    };
+    p->send_req(req, handler);
+}
+
 void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>& err)
 {
     recur_lock(lock_);
-- 
2.43.0


From d52e5659285a6018dfce823e9a768debc399f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:43 +0000
Subject: [PATCH 33/49] fix: only a candidate, with an unchanged configuration,
 could win an election

---
 src/raft_server.cxx               | 5 +++++
 src/raft_server_resp_handlers.cxx | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index aef6d4b..6a8a341 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -910,6 +910,11 @@ void raft_server::reconfigure(const ptr<cluster_config>& new_config)
     }
 
     config_ = new_config;
+    if (role_ == srv_role::candidate)
+    {
+        // votes that are collected for the previous configuration could not be counted for the new one
+        election_completed_ = true;
+    }
 }
 
 int32 raft_server::get_snapshot_sync_block_size() const
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 2099581..20c8aa0 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -219,7 +219,7 @@ void raft_server::handle_voting_resp(resp_msg& resp)
         return;
     }
 
-    if (election_completed_)
+    if (election_completed_ || role_ != srv_role::candidate)
     {
         l_->info("Election completed, will ignore the voting result from this server");
         return;
-- 
2.43.0


From 0d4820c598458d67a6f2608cd295315a0d9d58ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:50 +0000
Subject: [PATCH 34/49] fix: a server that is asked to leave must not block
 electing a leader forever

---
 src/raft_server_req_handlers.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index bcf417f..3278165 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -236,6 +236,13 @@ ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
         state_->set_voted_for(req.get_src());
         ctx_->state_mgr_->save_state(*state_);
     }
+    else if (steps_to_down_ > 0 && !log_okay)
+    {
+        // the leader that asked this server to leave is gone, while the others still take this server as a member and
+        // may not be able to elect a leader without it
+        l_->info("a new leader is needed before this server could leave, cancel stepping down");
+        steps_to_down_ = 0;
+    }
 
     return resp;
 }
-- 
2.43.0


From 85e9626db178a49df31ca2e28beaf1fc41e19722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:20 +0000
Subject: [PATCH 35/49] fix: an async result must be delivered exactly once,
 and not before it is set

---
 include/async.hxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/async.hxx b/include/async.hxx
index e03b0a2..30e4ee2 100644
--- a/include/async.hxx
+++ b/include/async.hxx
@@ -36,7 +36,7 @@ public:
     explicit async_result(T& result) : result_(result), err_(), has_result_(true), lock_(), cv_()
     {
     }
-    explicit async_result(handler_type& handler) : err_(), has_result_(true), handler_(handler), lock_(), cv_()
+    explicit async_result(handler_type& handler) : err_(), has_result_(false), handler_(handler), lock_(), cv_()
     {
     }
 
@@ -50,14 +50,20 @@ public:
     template <typename _THandler>
     void when_ready(_THandler&& handler)
     {
+        handler_type ready_handler;
         {
             std::lock_guard<std::mutex> guard(lock_);
             handler_ = std::forward<_THandler>(handler);
+            if (has_result_)
+            {
+                // set_result did not see this handler, otherwise, it's going to be called by set_result
+                ready_handler = handler_;
+            }
         }
 
-        if (has_result_)
+        if (ready_handler)
         {
-            handler_(result_, err_);
+            ready_handler(result_, err_);
         }
     }
 
@@ -97,7 +103,7 @@ public:
             throw err_;
         }
 
-        cv_.wait(lock);
+        cv_.wait(lock, [this]() { return has_result_; });
         if (err_ == nullptr)
         {
             return result_;
-- 
2.43.0


From c6bddb9a2221dd67c15a7eeb14fab710dc789628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:15 +0000
Subject: [PATCH 36/49] fix: requests sent concurrently with one rpc client
 must not get each other's responses

---
 src/asio_service.cxx | 60 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index a8cebf1..fa8aedb 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -385,7 +385,7 @@ class asio_rpc_client : public rpc_client, public std::enable_shared_from_this<a
 {
 public:
     asio_rpc_client(asio::io_service& io_svc, std::string& host, std::string& port)
-        : resolver_(io_svc), socket_(io_svc), host_(host), port_(port)
+        : resolver_(io_svc), socket_(io_svc), host_(host), port_(port), busy_(false), pending_reqs_(), pending_reqs_lock_()
     {
     }
     virtual ~asio_rpc_client()
@@ -398,6 +398,24 @@ public:
 
 public:
     virtual void send(ptr<req_msg>& req, rpc_handler& when_done) __override__
+    {
+        {
+            // there is only one connection, send requests one by one so that responses will not be mixed up
+            auto_lock(pending_reqs_lock_);
+            if (busy_)
+            {
+                pending_reqs_.push(std::make_pair(req, when_done));
+                return;
+            }
+
+            busy_ = true;
+        }
+
+        send_req(req, when_done);
+    }
+
+private:
+    void send_req(ptr<req_msg>& req, rpc_handler& when_done)
     {
         ptr<asio_rpc_client> self(this->shared_from_this());
         if (!socket_.is_open())
@@ -420,7 +438,7 @@ public:
                         ptr<resp_msg> rsp;
                         ptr<rpc_exception> except(cs_new<rpc_exception>(
                             lstrfmt("failed to resolve host %s due to error %d").fmt(host_.c_str(), err.value()), req));
-                        when_done(rsp, except);
+                        this->complete(when_done, rsp, except);
                     }
                 });
         }
@@ -469,7 +487,30 @@ public:
         }
     }
 
-private:
+    // current request is done, send out the next one
+    void complete(rpc_handler& when_done, ptr<resp_msg>& rsp, ptr<rpc_exception>& except)
+    {
+        ptr<req_msg> next_req;
+        rpc_handler next_handler;
+        {
+            auto_lock(pending_reqs_lock_);
+            busy_ = !pending_reqs_.empty();
+            if (busy_)
+            {
+                next_req = pending_reqs_.front().first;
+                next_handler = pending_reqs_.front().second;
+                pending_reqs_.pop();
+            }
+        }
+
+        if (next_req)
+        {
+            send_req(next_req, next_handler);
+        }
+
+        when_done(rsp, except);
+    }
+
     void connected(
         ptr<req_msg>& req,
         rpc_handler& when_done,
@@ -478,14 +519,14 @@ private:
     {
         if (!err)
         {
-            this->send(req, when_done);
+            this->send_req(req, when_done);
         }
         else
         {
             ptr<resp_msg> rsp;
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to connect to remote socket %d").fmt(err.value()), req));
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
     }
 
@@ -515,7 +556,7 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to send request to remote socket %d").fmt(err.value()), req));
             socket_.close();
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
     }
 
@@ -536,7 +577,7 @@ private:
             byte accepted_val = resp_buf->get_byte();
             ptr<resp_msg> rsp(cs_new<resp_msg>(term, (msg_type)msg_type_val, src, dst, nxt_idx, accepted_val == 1));
             ptr<rpc_exception> except;
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
         else
         {
@@ -544,7 +585,7 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to read response to remote socket %d").fmt(err.value()), req));
             socket_.close();
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
     }
 
@@ -553,6 +594,9 @@ private:
     asio::ip::tcp::socket socket_;
     std::string host_;
     std::string port_;
+    bool busy_;
+    std::queue<std::pair<ptr<req_msg>, rpc_handler>> pending_reqs_;
+    std::mutex pending_reqs_lock_;
 };
 } // namespace cornerstone
 
-- 
2.43.0


From eddc2ae1d70b415573bf8f4e081f506c14ae7a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:15 +0000
Subject: [PATCH 37/49] fix: a rpc client that failed to connect must be able
 to connect again

---
 src/asio_service.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index fa8aedb..062d8f2 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -526,6 +526,7 @@ private:
             ptr<resp_msg> rsp;
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to connect to remote socket %d").fmt(err.value()), req));
+            socket_.close();
             complete(when_done, rsp, except);
         }
     }
-- 
2.43.0


From 22ce2b5485fb7325b0a19aee15ca93822d77785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:10 +0000
Subject: [PATCH 38/49] fix: log store queries must give the same answers
 whatever part of the log is buffered

---
 include/fs_log_store.hxx |   3 +
 src/fs_log_store.cxx     | 159 +++++++++++++++------------------------
 2 files changed, 64 insertions(+), 98 deletions(-)

diff --git a/include/fs_log_store.hxx b/include/fs_log_store.hxx
index 2a8744d..9d9aa3d 100644
--- a/include/fs_log_store.hxx
+++ b/include/fs_log_store.hxx
@@ -169,6 +169,9 @@ namespace cornerstone {
         void close();
     private:
         void fill_buffer();
+        // the position of the entry in data file, or the end of the data file for next_slot()
+        ulong data_offset(ulong index);
+        ptr<log_entry> read_entry(ulong index);
     private:
         std::fstream idx_file_;
         std::fstream data_file_;
diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index a19b2fb..4c0720a 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -16,6 +16,7 @@
 
 #include "fs_log_store.hxx"
 #include "log_store.hxx"
+#include <algorithm>
 
 #define LOG_INDEX_FILE "store.idx"
 #define LOG_DATA_FILE "store.dat"
@@ -92,30 +93,15 @@ ptr<log_entry> log_store_buffer::operator[](ulong idx)
 ulong log_store_buffer::fill(ulong start, ulong end, std::vector<ptr<log_entry>>& result)
 {
     read_lock(lock_);
-    if (end < start_idx_)
+    for (ulong idx = start; idx < end; ++idx)
     {
-        return start_idx_;
-    }
-
-    int offset = static_cast<int>(start - start_idx_);
-    if (offset > 0)
-    {
-        for (int i = 0; i < static_cast<int>(end - start); ++i)
-        {
-            result.emplace_back(buf_[offset + i]);
-        }
-    }
-    else
-    {
-        offset *= -1;
-        for (int i = 0; i < offset; ++i)
+        if (idx < start_idx_ || idx - start_idx_ >= buf_.size())
         {
             result.emplace_back(ptr<log_entry>()); // make room for items that doesn't found in the buffer
         }
-
-        for (int i = 0; i < static_cast<int>(end - start_idx_); ++i)
+        else
         {
-            result.emplace_back(buf_[i]);
+            result.emplace_back(buf_[static_cast<size_t>(idx - start_idx_)]);
         }
     }
 
@@ -128,6 +114,9 @@ void log_store_buffer::trim(ulong start)
     write_lock(lock_);
     if (start < start_idx_)
     {
+        // nothing in the buffer is valid any more, and the next item appended will be the one at start
+        buf_.clear();
+        start_idx_ = start;
         return;
     }
 
@@ -177,7 +166,7 @@ fs_log_store::fs_log_store(const std::string& log_folder, int buf_size)
       log_folder_(log_folder),
       store_lock_(),
       buf_(nilptr),
-      buf_size_(buf_size < 0 ? std::numeric_limits<int>::max() : buf_size)
+      buf_size_(buf_size < 0 ? std::numeric_limits<int>::max() : std::max(buf_size, 1)) // always have the last entry buffered
 {
     if (log_folder_.length() > 0 && log_folder_[log_folder_.length() - 1] != PATH_SEPARATOR)
     {
@@ -264,6 +253,7 @@ ulong fs_log_store::start_index() const
 
 ptr<log_entry> fs_log_store::last_entry() const
 {
+    recur_lock(store_lock_);
     ptr<log_entry> entry = buf_->last_entry();
     if (entry == nilptr)
     {
@@ -368,26 +358,15 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
 
 ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong end)
 {
-    ulong lstart(0), lend(0), good_end(0);
+    // the range, the buffer and the files must be looked at in one step, otherwise they may not fit with each other
+    recur_lock(store_lock_);
+    if (start < start_idx_)
     {
-        recur_lock(store_lock_);
-        if (start < start_idx_)
-        {
-            throw std::range_error("index out of range");
-        }
-
-        if (start >= end || start >= (start_idx_ + entries_in_store_))
-        {
-            return ptr<std::vector<ptr<log_entry>>>();
-        }
-
-        lstart = start - start_idx_;
-        lend = end - start_idx_;
-        lend = lend > entries_in_store_ ? entries_in_store_ : lend;
-        good_end = lend + start_idx_;
+        throw std::range_error("index out of range");
     }
 
-    if (lstart >= lend)
+    ulong good_end = std::min(end, start_idx_ + entries_in_store_);
+    if (start >= good_end)
     {
         return ptr<std::vector<ptr<log_entry>>>();
     }
@@ -395,44 +374,14 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
     ptr<std::vector<ptr<log_entry>>> results(cs_new<std::vector<ptr<log_entry>>>());
 
     // fill with the buffer
-    ulong buffer_first_idx = buf_->fill(start, good_end, *results);
+    buf_->fill(start, good_end, *results);
 
     // Assumption: buffer.last_index() == entries_in_store_ + start_idx_
     // (Yes, for sure, we need to enforce this assumption to be true)
-    if (start < buffer_first_idx)
+    for (size_t i = 0; i < results->size() && !(*results)[i]; ++i)
     {
         // in this case, we need to read from store file
-        recur_lock(store_lock_);
-        if (!data_file_ || !idx_file_)
-        {
-            throw std::runtime_error("IO fails, data cannot be saved");
-        }
-
-        lend = buffer_first_idx - start_idx_;
-        idx_file_.seekg(lstart * sz_ulong);
-        bufptr d_start_idx_buf(buffer::alloc(sz_ulong));
-        idx_file_ >> *d_start_idx_buf;
-        ulong data_start = d_start_idx_buf->get_ulong();
-        for (int i = 0; i < (int)(lend - lstart); ++i)
-        {
-            bufptr d_end_idx_buf(buffer::alloc(sz_ulong));
-            idx_file_ >> *d_end_idx_buf;
-            ulong data_end = d_end_idx_buf->get_ulong();
-            int data_sz = (int)(data_end - data_start);
-            data_file_.seekg(data_start);
-            bufptr entry_buf(buffer::alloc(data_sz));
-            data_file_ >> *entry_buf;
-            if (results->size() > static_cast<size_t>(i))
-            {
-                (*results)[i] = log_entry::deserialize(*entry_buf);
-            }
-            else
-            {
-                results->emplace_back(log_entry::deserialize(*entry_buf));
-            }
-
-            data_start = data_end;
-        }
+        (*results)[i] = read_entry(start + i);
     }
 
     return results;
@@ -447,62 +396,47 @@ ptr<log_entry> fs_log_store::entry_at(ulong index)
     }
 
     {
-        // since we don't hit the buffer, so this must not be the last entry
-        // (according to Assumption: buffer.last_index() == entries_in_store_ + start_idx_)
         recur_lock(store_lock_);
         if (index < start_idx_)
         {
             throw std::range_error("index out of range");
         }
 
-        if (!data_file_ || !idx_file_)
-        {
-            throw std::runtime_error("IO fails, data cannot be saved");
-        }
-
         if (index >= start_idx_ + entries_in_store_)
         {
             return ptr<log_entry>();
         }
 
-        ulong idx_pos = (index - start_idx_) * sz_ulong;
-        idx_file_.seekg(idx_pos);
-        bufptr d_start_idx_buf(buffer::alloc(sz_ulong));
-        idx_file_ >> *d_start_idx_buf;
-        ulong d_pos = d_start_idx_buf->get_ulong();
-        bufptr d_end_idx_buf(buffer::alloc(sz_ulong));
-        idx_file_ >> *d_end_idx_buf;
-        ulong end_d_pos = d_end_idx_buf->get_ulong();
-        data_file_.seekg(d_pos);
-        bufptr entry_buf(buffer::alloc((int)(end_d_pos - d_pos)));
-        data_file_ >> *entry_buf;
-        return log_entry::deserialize(*entry_buf);
+        // the entry could be appended after we missed the buffer
+        entry = (*buf_)[index];
+        return entry ? entry : read_entry(index);
     }
 }
 
 ulong fs_log_store::term_at(ulong index)
 {
-    if (index >= buf_->first_idx() && index < buf_->last_idx())
+    // check and get in one step, the buffer could be changed by others in between
+    ptr<log_entry> entry = (*buf_)[index];
+    if (entry)
     {
-        return buf_->get_term(index);
+        return entry->get_term();
     }
 
     {
         recur_lock(store_lock_);
-        if (index < start_idx_)
+        if (index < start_idx_ || index >= start_idx_ + entries_in_store_)
         {
             throw std::range_error("index out of range");
         }
 
-        if (!data_file_ || !idx_file_)
+        entry = (*buf_)[index];
+        if (entry)
         {
-            throw std::runtime_error("IO fails, data cannot be saved");
+            return entry->get_term();
         }
 
-        idx_file_.seekg(static_cast<int>(index - start_idx_) * sz_ulong);
-        bufptr d_start_idx_buf(buffer::alloc(sz_ulong));
-        idx_file_ >> *d_start_idx_buf;
-        data_file_.seekg(d_start_idx_buf->get_ulong());
+        ulong data_pos = data_offset(index);
+        data_file_.seekg(data_pos);
 
         // IMPORTANT!!
         // We hack the log_entry serialization details here
@@ -856,6 +790,35 @@ void fs_log_store::close()
     start_idx_file_.close();
 }
 
+ulong fs_log_store::data_offset(ulong index)
+{
+    if (!data_file_ || !idx_file_)
+    {
+        throw std::runtime_error("IO fails, data cannot be accessed");
+    }
+
+    if (index >= start_idx_ + entries_in_store_)
+    {
+        data_file_.seekg(0, std::fstream::end);
+        return static_cast<ulong>(data_file_.tellg());
+    }
+
+    idx_file_.seekg((index - start_idx_) * sz_ulong);
+    bufptr idx_buf(buffer::alloc(sz_ulong));
+    idx_file_ >> *idx_buf;
+    return idx_buf->get_ulong();
+}
+
+ptr<log_entry> fs_log_store::read_entry(ulong index)
+{
+    ulong data_start = data_offset(index);
+    ulong data_end = data_offset(index + 1);
+    data_file_.seekg(data_start);
+    bufptr entry_buf(buffer::alloc(static_cast<size_t>(data_end - data_start)));
+    data_file_ >> *entry_buf;
+    return log_entry::deserialize(*entry_buf);
+}
+
 void fs_log_store::fill_buffer()
 {
     ulong first_idx = buf_->first_idx();
-- 
2.43.0


From 5d1336ea89e4d2d94fc1b3b749bcc328230c3386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:13 +0000
Subject: [PATCH 39/49] fix: overwriting the last log entry or applying a log
 pack must leave exactly the new entries in the store

---
 include/fs_log_store.hxx |   2 +
 src/fs_log_store.cxx     | 174 +++++++++++++--------------------------
 2 files changed, 61 insertions(+), 115 deletions(-)

diff --git a/include/fs_log_store.hxx b/include/fs_log_store.hxx
index 9d9aa3d..b372a4d 100644
--- a/include/fs_log_store.hxx
+++ b/include/fs_log_store.hxx
@@ -171,6 +171,8 @@ namespace cornerstone {
         void fill_buffer();
         // the position of the entry in data file, or the end of the data file for next_slot()
         ulong data_offset(ulong index);
+        // removes the entry at index and all entries after it
+        void truncate_from(ulong index);
         ptr<log_entry> read_entry(ulong index);
     private:
         std::fstream idx_file_;
diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 4c0720a..0210c2e 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -17,6 +17,7 @@
 #include "fs_log_store.hxx"
 #include "log_store.hxx"
 #include <algorithm>
+#include <cstring>
 
 #define LOG_INDEX_FILE "store.idx"
 #define LOG_DATA_FILE "store.dat"
@@ -294,66 +295,12 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
         throw std::range_error("index out of range");
     }
 
-    ulong local_idx = index - start_idx_ + 1; // start_idx is one based
-    ulong idx_pos = (local_idx - 1) * sz_ulong;
-    if (local_idx <= entries_in_store_)
+    if (index < start_idx_ + entries_in_store_)
     {
-        idx_file_.seekg(idx_pos, std::fstream::beg);
-        bufptr buf(buffer::alloc(sz_ulong));
-        idx_file_ >> *buf;
-        data_file_.seekp(buf->get_ulong(), std::fstream::beg);
-    }
-    else
-    {
-        data_file_.seekp(0, std::fstream::end);
-    }
-
-    idx_file_.seekp(idx_pos, std::fstream::beg);
-    ulong data_pos = data_file_.tellp();
-    bufptr ibuf(buffer::alloc(sz_ulong));
-    ibuf->put(data_pos);
-    ibuf->pos(0);
-    idx_file_ << *ibuf;
-    bufptr ebuf = entry->serialize();
-    data_file_ << *ebuf;
-    idx_file_.flush();
-    data_file_.flush();
-
-    // truncate the files if necessary
-    ulong ndata_len = data_file_.tellp();
-    ulong nidx_len = idx_file_.tellp();
-    idx_file_.seekp(0, std::fstream::end);
-    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len)
-    { // new index length is less than current file size, truncate it
-        std::string idx_path = log_folder_ + LOG_INDEX_FILE;
-        std::string data_path = log_folder_ + LOG_DATA_FILE;
-        idx_file_.close();
-        data_file_.close();
-        if (truncate(idx_path.c_str(), nidx_len) < 0)
-        {
-            throw std::ios_base::failure("failed to truncate the index file");
-        }
-
-        if (truncate(data_path.c_str(), ndata_len) < 0)
-        {
-            throw std::ios_base::failure("failed to truncate the data file");
-        }
-
-        idx_file_.open(idx_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-        data_file_.open(data_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-    }
-
-    if (local_idx <= entries_in_store_)
-    {
-        buf_->trim(index);
+        truncate_from(index);
     }
 
-    buf_->append(entry);
-    entries_in_store_ = local_idx;
-    if (!data_file_ || !idx_file_)
-    {
-        throw std::runtime_error("IO fails, data cannot be saved");
-    }
+    append(entry);
 }
 
 ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong end)
@@ -501,78 +448,46 @@ bufptr fs_log_store::pack(ulong index, int32 cnt)
 void fs_log_store::apply_pack(ulong index, buffer& pack)
 {
     recur_lock(store_lock_);
-    int32 idx_len = pack.get_int();
-    int32 data_len = pack.get_int();
-    ulong local_idx = index - start_idx_;
-    if (local_idx == entries_in_store_)
+    if (index < start_idx_ || index > start_idx_ + entries_in_store_)
     {
-        idx_file_.seekp(0, std::fstream::end);
-        data_file_.seekp(0, std::fstream::end);
+        throw std::range_error("index out of range");
     }
-    else
+
+    int32 idx_len = pack.get_int();
+    int32 data_len = pack.get_int();
+    ulong cnt = static_cast<ulong>(idx_len) / sz_ulong;
+    std::vector<ulong> offsets;
+    for (ulong i = 0; i < cnt; ++i)
     {
-        ulong idx_pos = local_idx * sz_ulong;
-        idx_file_.seekg(idx_pos);
-        bufptr data_pos_buf(buffer::alloc(sz_ulong));
-        idx_file_ >> *data_pos_buf;
-        idx_file_.seekp(idx_pos);
-        data_file_.seekp(data_pos_buf->get_ulong());
+        // the positions in the pack are the ones in the data file of the store that the pack came from
+        ulong pos = pack.get_ulong();
+        offsets.push_back(i == 0 ? pos : pos - offsets[0]);
     }
 
-    ulong prev_data_pos = data_file_.tellp();
-    size_t prev_pack_pos = pack.pos();
-    ulong first_idx = pack.get_ulong();
-    pack.pos(prev_pack_pos);
-    if (prev_data_pos == first_idx)
+    if (cnt > 0)
     {
-        idx_file_.write(reinterpret_cast<const char*>(pack.data()), idx_len);
+        offsets[0] = 0;
     }
-    else
+
+    std::vector<ptr<log_entry>> entries;
+    const byte* data = pack.data();
+    for (ulong i = 0; i < cnt; ++i)
     {
-        int32 byte_read = 0;
-        while (byte_read < idx_len)
-        {
-            ulong adjusted_idx = pack.get_ulong() + prev_data_pos - first_idx;
-            idx_file_.write(reinterpret_cast<const char*>(&adjusted_idx), sz_ulong);
-            byte_read += sz_ulong;
-        }
-        pack.pos(prev_pack_pos);
+        ulong end = i + 1 < cnt ? offsets[i + 1] : static_cast<ulong>(data_len);
+        bufptr entry_buf(buffer::alloc(static_cast<size_t>(end - offsets[i])));
+        ::memcpy(entry_buf->data(), data + offsets[i], entry_buf->size());
+        entries.push_back(log_entry::deserialize(*entry_buf));
     }
-    data_file_.write(reinterpret_cast<const char*>(pack.data() + idx_len), data_len);
-    idx_file_.flush();
-    data_file_.flush();
-    ulong idx_pos = idx_file_.tellp();
-    ulong data_pos = data_file_.tellp();
-    idx_file_.seekp(0, std::fstream::end);
-    data_file_.seekp(0, std::fstream::end);
-    if (idx_pos < static_cast<ulong>(idx_file_.tellp()))
-    {
-        std::string idx_path = log_folder_ + LOG_INDEX_FILE;
-        std::string data_path = log_folder_ + LOG_DATA_FILE;
-        idx_file_.close();
-        data_file_.close();
-        if (truncate(idx_path.c_str(), idx_pos) < 0)
-        {
-            throw std::ios_base::failure("failed to truncate the index file");
-        }
 
-        if (truncate(data_path.c_str(), data_pos) < 0)
-        {
-            throw std::ios_base::failure("failed to truncate the data file");
-        }
-
-        idx_file_.open(idx_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-        data_file_.open(data_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
+    if (index < start_idx_ + entries_in_store_)
+    {
+        truncate_from(index);
     }
 
-    if (!data_file_ || !idx_file_)
+    for (auto& entry : entries)
     {
-        throw std::runtime_error("IO fails, data cannot be saved");
+        append(entry);
     }
-
-    entries_in_store_ = local_idx + idx_len / sz_ulong;
-    buf_->reset(entries_in_store_ > (size_t)buf_size_ ? entries_in_store_ + start_idx_ - buf_size_ : start_idx_);
-    fill_buffer();
 }
 
 bool fs_log_store::compact(ulong last_log_index)
@@ -809,6 +724,35 @@ ulong fs_log_store::data_offset(ulong index)
     return idx_buf->get_ulong();
 }
 
+void fs_log_store::truncate_from(ulong index)
+{
+    ulong ndata_len = data_offset(index);
+    ulong nidx_len = (index - start_idx_) * sz_ulong;
+    std::string idx_path = log_folder_ + LOG_INDEX_FILE;
+    std::string data_path = log_folder_ + LOG_DATA_FILE;
+    idx_file_.close();
+    data_file_.close();
+    if (truncate(idx_path.c_str(), nidx_len) < 0)
+    {
+        throw std::ios_base::failure("failed to truncate the index file");
+    }
+
+    if (truncate(data_path.c_str(), ndata_len) < 0)
+    {
+        throw std::ios_base::failure("failed to truncate the data file");
+    }
+
+    idx_file_.open(idx_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
+    data_file_.open(data_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
+    if (!data_file_ || !idx_file_)
+    {
+        throw std::runtime_error("IO fails, data cannot be saved");
+    }
+
+    buf_->trim(index);
+    entries_in_store_ = index - start_idx_;
+}
+
 ptr<log_entry> fs_log_store::read_entry(ulong index)
 {
     ulong data_start = data_offset(index);
-- 
2.43.0


From d0681e622f1caed19dbc162b0a9b1b0681d7eee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:55 +0000
Subject: [PATCH 40/49] fix: a log entry that could not be written completely
 must not corrupt the log store

---
 include/fs_log_store.hxx |   2 +
 src/fs_log_store.cxx     | 116 +++++++++++++++++++++++++++++++++------
 2 files changed, 100 insertions(+), 18 deletions(-)

diff --git a/include/fs_log_store.hxx b/include/fs_log_store.hxx
index b372a4d..641dd6e 100644
--- a/include/fs_log_store.hxx
+++ b/include/fs_log_store.hxx
@@ -169,6 +169,8 @@ namespace cornerstone {
         void close();
     private:
         void fill_buffer();
+        // removes what an append or truncation that did not complete left in the files
+        void recover();
         // the position of the entry in data file, or the end of the data file for next_slot()
         ulong data_offset(ulong index);
         // removes the entry at index and all entries after it
diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 0210c2e..a93eeef 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -178,8 +178,8 @@ fs_log_store::fs_log_store(const std::string& log_folder, int buf_size)
         log_folder_ + LOG_INDEX_FILE, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
     if (!idx_file_)
     {
-        // create the file and reopen
-        idx_file_.open(log_folder_ + LOG_INDEX_FILE, std::fstream::out);
+        // create the file and reopen, keep what is in the file in case it exists but failed to open
+        idx_file_.open(log_folder_ + LOG_INDEX_FILE, std::fstream::out | std::fstream::app);
         idx_file_.close();
         idx_file_.open(
             log_folder_ + LOG_INDEX_FILE,
@@ -191,7 +191,7 @@ fs_log_store::fs_log_store(const std::string& log_folder, int buf_size)
     if (!data_file_)
     {
         // create the file and reopen
-        data_file_.open(log_folder_ + LOG_DATA_FILE, std::fstream::out);
+        data_file_.open(log_folder_ + LOG_DATA_FILE, std::fstream::out | std::fstream::app);
         data_file_.close();
         data_file_.open(
             log_folder_ + LOG_DATA_FILE,
@@ -203,7 +203,7 @@ fs_log_store::fs_log_store(const std::string& log_folder, int buf_size)
         std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
     if (!start_idx_file_)
     {
-        start_idx_file_.open(log_folder_ + LOG_START_INDEX_FILE, std::fstream::out);
+        start_idx_file_.open(log_folder_ + LOG_START_INDEX_FILE, std::fstream::out | std::fstream::app);
         start_idx_file_.close();
         start_idx_file_.open(
             log_folder_ + LOG_START_INDEX_FILE,
@@ -215,13 +215,15 @@ fs_log_store::fs_log_store(const std::string& log_folder, int buf_size)
         throw std::runtime_error("fail to create store files");
     }
 
-    if (start_idx_file_.tellp() > 0)
+    recover();
+    if (start_idx_file_.tellp() >= static_cast<std::streamoff>(sz_ulong))
     {
         start_idx_file_.seekg(0, std::fstream::beg);
         bufptr idx_buf(buffer::alloc(sz_ulong));
         start_idx_file_ >> *idx_buf;
         start_idx_ = idx_buf->get_ulong();
-        entries_in_store_ = idx_file_.tellp() / sz_ulong;
+        idx_file_.seekp(0, std::fstream::end);
+        entries_in_store_ = static_cast<ulong>(idx_file_.tellp()) / sz_ulong;
     }
     else
     {
@@ -232,7 +234,10 @@ fs_log_store::fs_log_store(const std::string& log_folder, int buf_size)
         start_idx_file_.seekp(0, std::fstream::beg);
         start_idx_file_ << *idx_buf;
         entries_in_store_ = 0;
-        start_idx_file_.flush();
+        if (!start_idx_file_.flush())
+        {
+            throw std::runtime_error("fail to create store files");
+        }
     }
 
     buf_ = std::make_unique<log_store_buffer>(
@@ -267,23 +272,31 @@ ptr<log_entry> fs_log_store::last_entry() const
 ulong fs_log_store::append(ptr<log_entry>& entry)
 {
     recur_lock(store_lock_);
+    if (!data_file_ || !idx_file_)
+    {
+        throw std::runtime_error("IO fails, data cannot be saved");
+    }
+
     idx_file_.seekp(0, std::fstream::end);
     data_file_.seekp(0, std::fstream::end);
     bufptr idx_buf(buffer::alloc(sz_ulong));
     idx_buf->put(static_cast<ulong>(data_file_.tellp()));
     idx_buf->pos(0);
-    idx_file_ << *idx_buf;
     bufptr entry_buf = entry->serialize();
-    data_file_ << *entry_buf;
-    buf_->append(entry);
-    entries_in_store_ += 1;
-    idx_file_.flush();
-    data_file_.flush();
-    if (!data_file_ || !idx_file_)
+
+    // the last byte of the index is written after all data of the entry, so that an entry that is not completely
+    // written can be recognized and removed when the store is opened next time, see recover()
+    const char* idx_data = reinterpret_cast<const char*>(idx_buf->data());
+    if (!idx_file_.write(idx_data, sz_ulong - 1).flush() ||
+        !data_file_.write(reinterpret_cast<const char*>(entry_buf->data()), entry_buf->size()).flush() ||
+        !idx_file_.write(idx_data + sz_ulong - 1, 1).flush())
     {
+        // the stream that failed remains failed, nothing will be read from or written to the files until reopen
         throw std::runtime_error("IO fails, data cannot be saved");
     }
 
+    buf_->append(entry);
+    entries_in_store_ += 1;
     return start_idx_ + entries_in_store_ - 1;
 }
 
@@ -724,6 +737,69 @@ ulong fs_log_store::data_offset(ulong index)
     return idx_buf->get_ulong();
 }
 
+void fs_log_store::recover()
+{
+    ulong idx_len = static_cast<ulong>(idx_file_.tellp());
+    ulong data_len = static_cast<ulong>(data_file_.tellp());
+    ulong cnt = idx_len / sz_ulong;
+    ulong data_end = data_len;
+    bufptr idx_buf(buffer::alloc(sz_ulong));
+    if (idx_len % sz_ulong == sz_ulong - 1)
+    {
+        // an entry that has not been completely written, its data starts from here
+        idx_buf->data()[sz_ulong - 1] = 0;
+        idx_file_.seekg(cnt * sz_ulong);
+        if (!idx_file_.read(reinterpret_cast<char*>(idx_buf->data()), sz_ulong - 1))
+        {
+            throw std::runtime_error("IO fails, index file cannot be read");
+        }
+
+        data_end = idx_buf->get_ulong();
+    }
+
+    // remove the indexes whose data is not in the data file
+    while (cnt > 0)
+    {
+        idx_buf->pos(0);
+        idx_file_.seekg((cnt - 1) * sz_ulong);
+        idx_file_ >> *idx_buf;
+        ulong data_start = idx_buf->get_ulong();
+        if (data_end <= data_len && data_start < data_end)
+        {
+            break;
+        }
+
+        data_end = data_start;
+        cnt -= 1;
+    }
+
+    if (cnt == 0)
+    {
+        data_end = 0;
+    }
+
+    if (data_end == data_len && cnt * sz_ulong == idx_len)
+    {
+        return;
+    }
+
+    std::string idx_path = log_folder_ + LOG_INDEX_FILE;
+    std::string data_path = log_folder_ + LOG_DATA_FILE;
+    idx_file_.close();
+    data_file_.close();
+    if (truncate(data_path.c_str(), data_end) < 0 || truncate(idx_path.c_str(), cnt * sz_ulong) < 0)
+    {
+        throw std::ios_base::failure("failed to remove incomplete entries");
+    }
+
+    idx_file_.open(idx_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
+    data_file_.open(data_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
+    if (!data_file_ || !idx_file_)
+    {
+        throw std::runtime_error("IO fails, data cannot be accessed");
+    }
+}
+
 void fs_log_store::truncate_from(ulong index)
 {
     ulong ndata_len = data_offset(index);
@@ -732,16 +808,20 @@ void fs_log_store::truncate_from(ulong index)
     std::string data_path = log_folder_ + LOG_DATA_FILE;
     idx_file_.close();
     data_file_.close();
-    if (truncate(idx_path.c_str(), nidx_len) < 0)
-    {
-        throw std::ios_base::failure("failed to truncate the index file");
-    }
 
+    // the data goes first, recover() removes the indexes that have no data
     if (truncate(data_path.c_str(), ndata_len) < 0)
     {
+        idx_file_.setstate(std::fstream::failbit);
         throw std::ios_base::failure("failed to truncate the data file");
     }
 
+    if (truncate(idx_path.c_str(), nidx_len) < 0)
+    {
+        idx_file_.setstate(std::fstream::failbit);
+        throw std::ios_base::failure("failed to truncate the index file");
+    }
+
     idx_file_.open(idx_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
     data_file_.open(data_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
     if (!data_file_ || !idx_file_)
-- 
2.43.0


From 6b9ae5dbe0c23712ed719698241d0fc71b8042f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:11 +0000
Subject: [PATCH 41/49] fix: a failed or interrupted log compaction must leave
 the log as it was

---
 include/fs_log_store.hxx |   7 +
 src/fs_log_store.cxx     | 305 ++++++++++++++++-----------------------
 2 files changed, 128 insertions(+), 184 deletions(-)

diff --git a/include/fs_log_store.hxx b/include/fs_log_store.hxx
index 641dd6e..bf74b90 100644
--- a/include/fs_log_store.hxx
+++ b/include/fs_log_store.hxx
@@ -70,6 +70,9 @@ namespace cornerstone {
         // trimming the buffer [start, end)
         void trim(ulong start);
 
+        // removes the items before start
+        void remove_before(ulong start);
+
         void append(ptr<log_entry>& entry);
 
         inline void reset(ulong start_idx) {
@@ -169,6 +172,10 @@ namespace cornerstone {
         void close();
     private:
         void fill_buffer();
+        bool open_files();
+        // puts the files back to the state before the compaction
+        bool restore_files();
+        bool compact_files(ulong new_start_idx, ulong entries_left, ulong data_pos);
         // removes what an append or truncation that did not complete left in the files
         void recover();
         // the position of the entry in data file, or the end of the data file for next_slot()
diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index a93eeef..a52a474 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -17,11 +17,14 @@
 #include "fs_log_store.hxx"
 #include "log_store.hxx"
 #include <algorithm>
+#include <cerrno>
+#include <cstdio>
 #include <cstring>
 
 #define LOG_INDEX_FILE "store.idx"
 #define LOG_DATA_FILE "store.dat"
 #define LOG_START_INDEX_FILE "store.sti"
+#define LOG_COMPACT_FILE "store.cpt"
 #define LOG_INDEX_FILE_BAK "store.idx.bak"
 #define LOG_DATA_FILE_BAK "store.dat.bak"
 #define LOG_START_INDEX_FILE_BAK "store.sti.bak"
@@ -128,6 +131,19 @@ void log_store_buffer::trim(ulong start)
     }
 }
 
+// removes the items before start
+void log_store_buffer::remove_before(ulong start)
+{
+    write_lock(lock_);
+    if (start <= start_idx_)
+    {
+        return;
+    }
+
+    buf_.erase(buf_.begin(), buf_.begin() + static_cast<size_t>(std::min<ulong>(start - start_idx_, buf_.size())));
+    start_idx_ = start;
+}
+
 void log_store_buffer::append(ptr<log_entry>& entry)
 {
     write_lock(lock_);
@@ -139,6 +155,22 @@ void log_store_buffer::append(ptr<log_entry>& entry)
     }
 }
 
+// copies the content of a file, starting from the position pos
+static bool copy_file(const std::string& from, const std::string& to, ulong pos = 0)
+{
+    std::ifstream in(from, std::fstream::binary);
+    std::ofstream out(to, std::fstream::binary | std::fstream::trunc);
+    in.seekg(pos);
+    char data[4096];
+    while (in && out)
+    {
+        in.read(data, sizeof(data));
+        out.write(data, in.gcount());
+    }
+
+    return in.eof() && !in.bad() && out.flush();
+}
+
 fs_log_store::~fs_log_store()
 {
     recur_lock(store_lock_);
@@ -174,6 +206,14 @@ fs_log_store::fs_log_store(const std::string& log_folder, int buf_size)
         log_folder_.push_back(PATH_SEPARATOR);
     }
 
+    // the last compaction has not completed, restore the files
+    errno = 0;
+    std::ifstream compact_file(log_folder_ + LOG_COMPACT_FILE);
+    if (compact_file ? !restore_files() : errno != ENOENT)
+    {
+        throw std::runtime_error("fail to restore store files");
+    }
+
     idx_file_.open(
         log_folder_ + LOG_INDEX_FILE, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
     if (!idx_file_)
@@ -511,208 +551,109 @@ bool fs_log_store::compact(ulong last_log_index)
         throw std::range_error("index out of range");
     }
 
-    // backup the files
-    idx_file_.seekg(0);
-    data_file_.seekg(0);
-    start_idx_file_.seekg(0);
-    std::string idx_bak_path = log_folder_ + LOG_INDEX_FILE_BAK;
-    std::string data_bak_path = log_folder_ + LOG_DATA_FILE_BAK;
-    std::string start_idx_bak_path = log_folder_ + LOG_START_INDEX_FILE_BAK;
-    std::string data_file_path = log_folder_ + LOG_DATA_FILE;
-    std::string idx_file_path = log_folder_ + LOG_INDEX_FILE;
-    std::string start_idx_file_path = log_folder_ + LOG_START_INDEX_FILE;
-    std::remove(idx_bak_path.c_str());
-    std::remove(data_bak_path.c_str());
-    std::remove(start_idx_bak_path.c_str());
+    ulong entries_left = entries_in_store_ - std::min(last_log_index - start_idx_ + 1, entries_in_store_);
+    ulong data_pos = data_offset(start_idx_ + entries_in_store_ - entries_left);
 
-    std::fstream idx_bak_file, data_bak_file, start_idx_bak_file;
-    idx_bak_file.open(idx_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
-    if (!idx_bak_file)
+    // backup the files, the backup is valid as long as the compact file exists
+    std::string compact_path = log_folder_ + LOG_COMPACT_FILE;
+    if (!copy_file(log_folder_ + LOG_INDEX_FILE, log_folder_ + LOG_INDEX_FILE_BAK) ||
+        !copy_file(log_folder_ + LOG_DATA_FILE, log_folder_ + LOG_DATA_FILE_BAK) ||
+        !copy_file(log_folder_ + LOG_START_INDEX_FILE, log_folder_ + LOG_START_INDEX_FILE_BAK))
     {
-        idx_bak_file.open(idx_bak_path, std::fstream::out);
-        idx_bak_file.close();
-        idx_bak_file.open(idx_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
+        return false; // we cannot proceed as backup files are bad
     }
 
-    data_bak_file.open(data_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
-    if (!data_bak_file)
+    std::ofstream compact_file(compact_path);
+    if (!compact_file)
     {
-        data_bak_file.open(data_bak_path, std::fstream::out);
-        data_bak_file.close();
-        data_bak_file.open(data_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
+        return false;
     }
 
-    start_idx_bak_file.open(start_idx_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
-    if (!start_idx_bak_file)
+    compact_file.close();
+    idx_file_.close();
+    data_file_.close();
+    start_idx_file_.close();
+    if (compact_files(last_log_index + 1, entries_left, data_pos) && open_files() &&
+        std::remove(compact_path.c_str()) == 0)
     {
-        start_idx_bak_file.open(start_idx_bak_path, std::fstream::out);
-        start_idx_bak_file.close();
-        start_idx_bak_file.open(start_idx_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
+        start_idx_ = last_log_index + 1;
+        entries_in_store_ = entries_left;
+        buf_->remove_before(start_idx_);
+        return true;
     }
 
-    if (!idx_bak_file || !data_bak_file || !start_idx_bak_file)
-        return false; // we cannot proceed as backup files are bad
-
-    idx_file_.seekg(0);
-    data_file_.seekg(0);
-    start_idx_file_.seekg(0);
-    idx_bak_file << idx_file_.rdbuf();
-    data_bak_file << data_file_.rdbuf();
-    start_idx_bak_file << start_idx_file_.rdbuf();
-    idx_bak_file.flush();
-    data_bak_file.flush();
-    start_idx_bak_file.flush();
-
-    do
+    // restore the state due to errors
+    idx_file_.close();
+    data_file_.close();
+    start_idx_file_.close();
+    if (!restore_files() || !open_files())
     {
-        if (last_log_index >= start_idx_ + entries_in_store_ - 1)
-        {
-            // need to clear all entries in this store and update the start index
-            idx_file_.close();
-            data_file_.close();
-            if (std::remove(idx_file_path.c_str()) != 0)
-                break;
-            if (std::remove(data_file_path.c_str()) != 0)
-                break;
-            idx_file_.open(idx_file_path, std::fstream::out);
-            idx_file_.close();
-            idx_file_.open(
-                idx_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-            data_file_.open(data_file_path, std::fstream::out);
-            data_file_.close();
-            data_file_.open(
-                data_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-            if (!idx_file_ || !data_file_)
-                break;
-
-            // save the logstore state
-            start_idx_file_.seekp(0);
-            bufptr start_idx_buf(buffer::alloc(sz_ulong));
-            start_idx_buf->put(last_log_index + 1);
-            start_idx_buf->pos(0);
-            start_idx_file_ << *start_idx_buf;
-            start_idx_file_.flush();
-            start_idx_ = last_log_index + 1;
-            entries_in_store_ = 0;
-            buf_->reset(start_idx_);
-
-            // close all backup files
-            idx_bak_file.close();
-            data_bak_file.close();
-            start_idx_bak_file.close();
-            return true;
-        }
-
-        // else, we need to compact partial of the logs
-        ulong local_last_idx = last_log_index - start_idx_;
-        ulong idx_pos = (local_last_idx + 1) * sz_ulong;
-        bufptr data_pos_buf(buffer::alloc(sz_ulong));
-        idx_file_.seekg(idx_pos);
-        idx_file_ >> *data_pos_buf;
-        idx_file_.seekp(0, std::fstream::end);
-        data_file_.seekp(0, std::fstream::end);
-        ulong data_pos = data_pos_buf->get_ulong();
-        ulong idx_len = static_cast<ulong>(idx_file_.tellp()) - idx_pos;
-        ulong data_len = static_cast<ulong>(data_file_.tellp()) - data_pos;
+        idx_file_.setstate(std::fstream::failbit);
+        throw std::runtime_error("IO error, fails to restore files back.");
+    }
 
-        // compact the data file
-        data_bak_file.seekg(data_pos);
-        data_file_.seekp(0);
-        data_file_ << data_bak_file.rdbuf();
+    return false;
+}
 
-        // truncate the data file
-        data_file_.close();
-        if (0 != truncate(data_file_path.c_str(), data_len))
-            break;
-        data_file_.open(
-            data_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-        if (!data_file_)
-            break;
+bool fs_log_store::compact_files(ulong new_start_idx, ulong entries_left, ulong data_pos)
+{
+    std::ifstream idx_bak_file(log_folder_ + LOG_INDEX_FILE_BAK, std::fstream::binary | std::fstream::ate);
+    std::ofstream idx_file(log_folder_ + LOG_INDEX_FILE, std::fstream::binary | std::fstream::trunc);
+    std::ofstream start_idx_file(log_folder_ + LOG_START_INDEX_FILE, std::fstream::binary | std::fstream::trunc);
+    if (!idx_bak_file || !idx_file || !start_idx_file ||
+        !copy_file(log_folder_ + LOG_DATA_FILE_BAK, log_folder_ + LOG_DATA_FILE, data_pos))
+    {
+        return false;
+    }
 
-        // compact the index file
-        idx_bak_file.seekg(idx_pos);
-        idx_file_.seekp(0);
-        for (ulong i = 0; i < idx_len / sz_ulong; ++i)
+    try
+    {
+        bufptr buf(buffer::alloc(sz_ulong));
+        idx_bak_file.seekg(-static_cast<std::streamoff>(entries_left * sz_ulong), std::fstream::end);
+        for (ulong i = 0; i < entries_left; ++i)
         {
-            data_pos_buf->pos(0);
-            idx_bak_file >> *data_pos_buf;
-            ulong new_pos = data_pos_buf->get_ulong() - data_pos;
-            data_pos_buf->pos(0);
-            data_pos_buf->put(new_pos);
-            data_pos_buf->pos(0);
-            idx_file_ << *data_pos_buf;
+            buf->pos(0);
+            idx_bak_file >> *buf;
+            ulong new_pos = buf->get_ulong() - data_pos;
+            buf->pos(0);
+            buf->put(new_pos);
+            buf->pos(0);
+            idx_file << *buf;
         }
 
-        // truncate the index file
-        idx_file_.close();
-        if (0 != truncate(idx_file_path.c_str(), idx_len))
-            break;
-        idx_file_.open(idx_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-        if (!idx_file_)
-            break;
-
-        // close all backup files
-        idx_bak_file.close();
-        data_bak_file.close();
-        start_idx_bak_file.close();
-
-        start_idx_file_.seekp(0);
-        bufptr start_idx_buf(buffer::alloc(sz_ulong));
-        start_idx_buf->put(last_log_index + 1);
-        start_idx_buf->pos(0);
-        start_idx_file_ << *start_idx_buf;
-        start_idx_file_.flush();
-        entries_in_store_ -= (last_log_index - start_idx_ + 1);
-        start_idx_ = last_log_index + 1;
-        buf_->reset(entries_in_store_ > (size_t)buf_size_ ? entries_in_store_ + start_idx_ - buf_size_ : start_idx_);
-        fill_buffer();
-        return true;
-    } while (false);
-
-    // restore the state due to errors
-    if (idx_file_)
-        idx_file_.close();
-    if (data_file_)
-        data_file_.close();
-    if (start_idx_file_)
-        start_idx_file_.close();
-    std::remove(idx_file_path.c_str());
-    std::remove(data_file_path.c_str());
-    std::remove(start_idx_file_path.c_str());
-    idx_bak_file.seekg(0);
-    data_bak_file.seekg(0);
-    start_idx_bak_file.seekg(0);
-    data_file_.open(data_bak_path, std::fstream::out);
-    data_file_.close();
-    data_file_.open(data_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-    idx_file_.open(idx_file_path, std::fstream::out);
-    idx_file_.close();
-    idx_file_.open(idx_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-    start_idx_file_.open(start_idx_file_path, std::fstream::out);
-    start_idx_file_.close();
-    start_idx_file_.open(
-        start_idx_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-    if (!idx_file_ || !data_file_ || !start_idx_file_)
+        buf->pos(0);
+        buf->put(new_start_idx);
+        buf->pos(0);
+        start_idx_file << *buf;
+    }
+    catch (const std::ios_base::failure&)
     {
-        throw std::runtime_error("IO error, fails to restore files back.");
+        return false;
     }
 
-    data_file_ << data_bak_file.rdbuf();
-    idx_file_ << idx_bak_file.rdbuf();
-    start_idx_file_ << start_idx_bak_file.rdbuf();
-    data_file_.flush();
-    idx_file_.flush();
-    start_idx_file_.flush();
+    return idx_file.flush() && start_idx_file.flush();
+}
 
-    // close all backup files
-    idx_bak_file.close();
-    data_bak_file.close();
-    start_idx_bak_file.close();
-    return false;
+bool fs_log_store::restore_files()
+{
+    return copy_file(log_folder_ + LOG_INDEX_FILE_BAK, log_folder_ + LOG_INDEX_FILE) &&
+           copy_file(log_folder_ + LOG_DATA_FILE_BAK, log_folder_ + LOG_DATA_FILE) &&
+           copy_file(log_folder_ + LOG_START_INDEX_FILE_BAK, log_folder_ + LOG_START_INDEX_FILE) &&
+           std::remove((log_folder_ + LOG_COMPACT_FILE).c_str()) == 0;
+}
+
+bool fs_log_store::open_files()
+{
+    auto mode = std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate;
+    idx_file_.open(log_folder_ + LOG_INDEX_FILE, mode);
+    data_file_.open(log_folder_ + LOG_DATA_FILE, mode);
+    start_idx_file_.open(log_folder_ + LOG_START_INDEX_FILE, mode);
+    return idx_file_ && data_file_ && start_idx_file_;
 }
 
 void fs_log_store::close()
 {
+    recur_lock(store_lock_);
     idx_file_.close();
     data_file_.close();
     start_idx_file_.close();
@@ -754,23 +695,19 @@ void fs_log_store::recover()
             throw std::runtime_error("IO fails, index file cannot be read");
         }
 
-        data_end = idx_buf->get_ulong();
+        data_end = std::min(data_end, idx_buf->get_ulong());
     }
 
     // remove the indexes whose data is not in the data file
-    while (cnt > 0)
+    for (; cnt > 0; --cnt)
     {
         idx_buf->pos(0);
         idx_file_.seekg((cnt - 1) * sz_ulong);
         idx_file_ >> *idx_buf;
-        ulong data_start = idx_buf->get_ulong();
-        if (data_end <= data_len && data_start < data_end)
+        if (idx_buf->get_ulong() < data_end)
         {
             break;
         }
-
-        data_end = data_start;
-        cnt -= 1;
     }
 
     if (cnt == 0)
-- 
2.43.0


From fa3d323d594a45bc302437d45919e4a51228b5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:53 +0000
Subject: [PATCH 42/49] fix: stopping the service could hang and lose log lines

---
 src/asio_service.cxx | 46 ++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 062d8f2..86419e6 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -112,6 +112,7 @@ private:
     void stop();
     void worker_entry();
     void flush_all_loggers(asio::error_code err);
+    void flush_loggers();
 
 private:
     asio::io_service io_svc_;
@@ -119,9 +120,7 @@ private:
     std::atomic_int continue_;
     std::mutex logger_list_lock_;
     std::list<ptr<impls::fs_based_logger>> loggers_;
-    bool stopping_;
     std::mutex stopping_lock_;
-    std::condition_variable stopping_cv_;
     friend asio_service;
     friend impls::fs_based_logger;
 };
@@ -624,9 +623,7 @@ asio_service_impl::asio_service_impl()
       continue_(1),
       logger_list_lock_(),
       loggers_(),
-      stopping_(false),
-      stopping_lock_(),
-      stopping_cv_()
+      stopping_lock_()
 {
 }
 
@@ -668,24 +665,26 @@ void asio_service_impl::worker_entry()
 
 void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
 {
-    if (continue_.load() == 1)
     {
-        log_flush_tm_.expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::hours(1000)));
-        log_flush_tm_.async_wait([self = shared_from_this()](asio::error_code err) mutable
-                                 { self->flush_all_loggers(err); });
-    }
-
-    {
-        std::lock_guard<std::mutex> guard(logger_list_lock_);
-        for (std::list<ptr<fs_based_logger>>::iterator it = loggers_.begin(); it != loggers_.end(); ++it)
+        // stop must either find the timer that is set here or keep it from being set
+        std::lock_guard<std::mutex> guard(stopping_lock_);
+        if (continue_.load() == 1)
         {
-            (*it)->flush();
+            log_flush_tm_.expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::hours(1000)));
+            log_flush_tm_.async_wait([self = shared_from_this()](asio::error_code err) mutable
+                                     { self->flush_all_loggers(err); });
         }
     }
 
-    if (stopping_)
+    flush_loggers();
+}
+
+void asio_service_impl::flush_loggers()
+{
+    std::lock_guard<std::mutex> guard(logger_list_lock_);
+    for (std::list<ptr<fs_based_logger>>::iterator it = loggers_.begin(); it != loggers_.end(); ++it)
     {
-        stopping_cv_.notify_all();
+        (*it)->flush();
     }
 }
 
@@ -694,12 +693,13 @@ void asio_service_impl::stop()
     int running = 1;
     if (continue_.compare_exchange_strong(running, 0))
     {
-        std::unique_lock<std::mutex> lock(stopping_lock_);
-        stopping_ = true;
-        log_flush_tm_.cancel();
-        stopping_cv_.wait(lock);
-        lock.unlock();
-        lock.release();
+        {
+            std::lock_guard<std::mutex> guard(stopping_lock_);
+            log_flush_tm_.cancel();
+        }
+
+        // what has been logged must be in files when this returns, don't depend on a worker thread to do this
+        flush_loggers();
     }
 }
 
-- 
2.43.0


From e0ce403a56d462670c394e15884c68536dc0874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:26 +0000
Subject: [PATCH 43/49] fix: an expired timer that was scheduled again could
 run the task early

---
 src/asio_service.cxx | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 86419e6..811bc28 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -603,15 +603,27 @@ private:
 using namespace cornerstone;
 using namespace cornerstone::impls;
 
+// the timer of a delayed task, and how many times the task has been scheduled
+struct timer_context
+{
+    explicit timer_context(asio::io_service& io_svc) : timer_(io_svc), schedules_(0)
+    {
+    }
+
+    asio::steady_timer timer_;
+    std::atomic<ulong> schedules_;
+};
+
 void _free_timer_(void* ptr)
 {
-    asio::steady_timer* timer = static_cast<asio::steady_timer*>(ptr);
+    timer_context* timer = static_cast<timer_context*>(ptr);
     delete timer;
 }
 
-void _timer_handler_(ptr<delayed_task>& task, asio::error_code err)
+void _timer_handler_(ptr<delayed_task>& task, ulong schedule, asio::error_code err)
 {
-    if (!err)
+    // a timer that already expired cannot be cancelled, the task could have been scheduled again since then
+    if (!err && static_cast<timer_context*>(task->get_impl_context())->schedules_.load() == schedule)
     {
         task->execute();
     }
@@ -765,21 +777,24 @@ void asio_service::schedule(ptr<delayed_task>& task, int32 milliseconds)
 {
     if (task->get_impl_context() == nilptr)
     {
-        task->set_impl_context(new asio::steady_timer(impl_->io_svc_), &_free_timer_);
+        task->set_impl_context(new timer_context(impl_->io_svc_), &_free_timer_);
     }
+
+    timer_context* ctx = static_cast<timer_context*>(task->get_impl_context());
+    ulong schedule = ++ctx->schedules_;
     // ensure it's not in cancelled state
     task->reset();
 
-    asio::steady_timer* timer = static_cast<asio::steady_timer*>(task->get_impl_context());
+    asio::steady_timer* timer = &ctx->timer_;
     timer->expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::milliseconds(milliseconds)));
-    timer->async_wait([task](const asio::error_code err) mutable { _timer_handler_(task, err); });
+    timer->async_wait([task, schedule](const asio::error_code err) mutable { _timer_handler_(task, schedule, err); });
 }
 
 void asio_service::cancel_impl(ptr<delayed_task>& task)
 {
     if (task->get_impl_context() != nilptr)
     {
-        static_cast<asio::steady_timer*>(task->get_impl_context())->cancel();
+        static_cast<timer_context*>(task->get_impl_context())->timer_.cancel();
     }
 }
 
-- 
2.43.0


From dc6dd1bb4920ff52da8518f4d71f1018588fe975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:58 +0000
Subject: [PATCH 44/49] fix: log lines could be stamped with the time of
 another thread

---
 src/asio_service.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 811bc28..0845333 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -746,7 +746,14 @@ void cornerstone::impls::fs_based_logger::write_log(const std::string& level, co
     std::chrono::system_clock::time_point now = std::chrono::system_clock::now();
     int ms = (int)(std::chrono::duration_cast<std::chrono::milliseconds>(now.time_since_epoch()).count() % 1000);
     std::time_t now_c = std::chrono::system_clock::to_time_t(now);
-    std::tm* tm = std::gmtime(&now_c);
+    std::tm now_tm;
+    std::tm* tm = &now_tm;
+    // std::gmtime shares its result among all threads
+#if defined(_WIN32)
+    gmtime_s(tm, &now_c);
+#else
+    gmtime_r(&now_c, tm);
+#endif
     std::hash<std::thread::id> hasher;
     std::string line(sstrfmt("%d/%d/%d %d:%d:%d.%d\t[%d]\t%s\t")
                          .fmt(
-- 
2.43.0


From 55fe64d828e1d3d58607635a5e6c90e45018e504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:27 +0000
Subject: [PATCH 45/49] fix: stopping a listener while it is accepting a
 connection could crash

---
 src/asio_service.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 0845333..abbdf41 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -312,6 +312,7 @@ public:
         : io_svc_(io),
           handler_(),
           acceptor_(io, asio::ip::tcp::endpoint(asio::ip::tcp::v4(), port)),
+          acceptor_lock_(),
           active_sessions_(),
           session_lock_(),
           l_(l)
@@ -321,6 +322,7 @@ public:
 
         public : virtual void stop() override
     {
+        auto_lock(acceptor_lock_);
         acceptor_.close();
     }
 
@@ -333,6 +335,8 @@ public:
 private:
     void start()
     {
+        // the acceptor could be closed by another thread at any time
+        auto_lock(acceptor_lock_);
         if (!acceptor_.is_open())
         {
             return;
@@ -375,6 +379,7 @@ private:
     asio::io_service& io_svc_;
     ptr<msg_handler> handler_;
     asio::ip::tcp::acceptor acceptor_;
+    std::mutex acceptor_lock_;
     std::vector<ptr<rpc_session>> active_sessions_;
     std::mutex session_lock_;
     ptr<logger> l_;
-- 
2.43.0


From 4d18a12ec21876901c746c35b5f9a88fe3d97a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:38 +0000
Subject: [PATCH 46/49] fix: sending an entry moved the read position of the
 buffer it shares with the committing thread

The rpc client rewound and read the entry's buffer through its position while the committing
thread (configuration entries) or the state machine was reading the same buffer, so either side
could read garbage: a wrong entry on the wire, a wrong configuration, or a server exiting.
---
 include/buffer.hxx   |  2 ++
 src/asio_service.cxx |  4 ++--
 src/buffer.cxx       | 13 +++++++++++++
 src/raft_server.cxx  |  1 +
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/buffer.hxx b/include/buffer.hxx
index 9ba34b7..5f4fb66 100644
--- a/include/buffer.hxx
+++ b/include/buffer.hxx
@@ -52,6 +52,8 @@ public:
     void put(ulong val);
     void put(const std::string& str);
     void put(const buffer& buf);
+    // put all bytes of the other buffer, no matter where its position is
+    void put_all(const buffer& buf);
 };
 
 std::ostream& operator<<(std::ostream& out, buffer& buf);
diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index abbdf41..f99313d 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -459,8 +459,8 @@ private:
                 entry_buf->put((*it)->get_term());
                 entry_buf->put((byte)((*it)->get_val_type()));
                 entry_buf->put((int32)(*it)->get_buf().size());
-                (*it)->get_buf().pos(0);
-                entry_buf->put((*it)->get_buf());
+                // the entry is shared with the log and the committing thread, its position must not be touched
+                entry_buf->put_all((*it)->get_buf());
                 entry_buf->pos(0);
                 log_data_size += (int32)entry_buf->size();
                 log_entry_bufs.emplace_back(std::move(entry_buf));
diff --git a/src/buffer.cxx b/src/buffer.cxx
index 50678e6..0f18c01 100644
--- a/src/buffer.cxx
+++ b/src/buffer.cxx
@@ -51,6 +51,7 @@
 #define __data_of_block(p)                                                           \
     (__is_big_block(p)) ? (byte*)(((byte*)(((uint*)(p)) + 2)) + __pos_of_b_block(p)) \
                         : (byte*)(((byte*)(((ushort*)p) + 2)) + __pos_of_s_block(p))
+#define __begin_of_block(p) ((__is_big_block(p)) ? (byte*)(((uint*)(p)) + 2) : (byte*)(((ushort*)(p)) + 2))
 using namespace cornerstone;
 
 static void free_buffer(buffer* buf)
@@ -266,6 +267,18 @@ void buffer::put(const buffer& buf)
     __mv_fw_block(this, src_sz - src_p);
 }
 
+void buffer::put_all(const buffer& buf)
+{
+    size_t src_sz = buf.size();
+    if ((size() - pos()) < src_sz)
+    {
+        throw std::overflow_error("insufficient buffer to hold the other buffer");
+    }
+
+    ::memcpy(data(), __begin_of_block(&buf), src_sz);
+    __mv_fw_block(this, src_sz);
+}
+
 std::ostream& cornerstone::operator<<(std::ostream& out, buffer& buf)
 {
     if (!out)
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 6a8a341..d0ca8c1 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1078,6 +1078,7 @@ void raft_server::commit_in_bg()
                 ptr<log_entry> log_entry(log_store_->entry_at(sm_commit_index_));
                 if (log_entry->get_val_type() == log_val_type::app_log)
                 {
+                    log_entry->get_buf().pos(0);
                     state_machine_->commit(sm_commit_index_, log_entry->get_buf(), log_entry->get_cookie());
                 }
                 else if (log_entry->get_val_type() == log_val_type::conf)
-- 
2.43.0


From 3ae9d52bf313c80e1eee1f5a659a93e95a85d628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:46 +0000
Subject: [PATCH 47/49] fix: a commit notice was lost when a heartbeat went out
 while the response that caused it was being handled

---
 src/raft_server_resp_handlers.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 20c8aa0..db03f57 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -149,9 +149,10 @@ void raft_server::handle_append_entries_resp(resp_msg& resp)
     // This may not be a leader anymore, such as the response was sent out long time ago
     // and the role was updated by UpdateTerm call
     // Try to match up the logs for this peer
-    if (role_ == srv_role::leader && need_to_catchup)
+    if (role_ == srv_role::leader && need_to_catchup && !request_append_entries(*p))
     {
-        request_append_entries(*p);
+        // a request was sent before this response was handled, catch up once that one is responded
+        p->set_pending_commit();
     }
 }
 
@@ -204,9 +205,10 @@ void raft_server::handle_install_snapshot_resp(resp_msg& resp)
     // This may not be a leader anymore, such as the response was sent out long time ago
     // and the role was updated by UpdateTerm call
     // Try to match up the logs for this peer
-    if (role_ == srv_role::leader && need_to_catchup)
+    if (role_ == srv_role::leader && need_to_catchup && !request_append_entries(*p))
     {
-        request_append_entries(*p);
+        // a request was sent before this response was handled, catch up once that one is responded
+        p->set_pending_commit();
     }
 }
 
-- 
2.43.0


From 7a0095bf2ee906954bf7f2c428ad74495a8a9cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:55 +0000
Subject: [PATCH 48/49] fix: logs accepted as a member or not committed were
 dropped silently by log sync when a server joins again

---
 include/raft_server.hxx          |  1 +
 src/raft_server_req_handlers.cxx | 60 ++++++++++++++++++++------------
 2 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 2bada67..af07929 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -115,6 +115,7 @@ private:
     void on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr<std::exception>& err);
     void on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req);
     ulong term_for_log(ulong log_idx);
+    void rollback_logs(ulong start_idx);
     bool is_config_changing(ulong end_idx);
     void commit_in_bg();
     ptr<async_result<bool>> send_msg_to_leader(ptr<req_msg>& req);
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 3278165..8897495 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -156,26 +156,7 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         // all logs since the first conflict one are dropped, roll them back
         if (log_idx < req.log_entries().size())
         {
-            bool conf_dropped = false;
-            for (ulong old_idx = log_store_->next_slot() - 1; old_idx >= idx; --old_idx)
-            {
-                ptr<log_entry> old_entry(log_store_->entry_at(old_idx));
-                if (old_entry->get_val_type() == log_val_type::app_log)
-                {
-                    state_machine_->rollback(old_idx, old_entry->get_buf(), old_entry->get_cookie());
-                }
-                else if (old_entry->get_val_type() == log_val_type::conf)
-                {
-                    l_->info(
-                        sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
-                    conf_dropped = true;
-                }
-            }
-
-            if (conf_dropped)
-            {
-                config_changing_ = is_config_changing(idx);
-            }
+            rollback_logs(idx);
         }
 
         // dealing with overwrites
@@ -221,6 +202,29 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     return resp;
 }
 
+void raft_server::rollback_logs(ulong start_idx)
+{
+    bool conf_dropped = false;
+    for (ulong old_idx = log_store_->next_slot() - 1; old_idx >= start_idx; --old_idx)
+    {
+        ptr<log_entry> old_entry(log_store_->entry_at(old_idx));
+        if (old_entry->get_val_type() == log_val_type::app_log)
+        {
+            state_machine_->rollback(old_idx, old_entry->get_buf(), old_entry->get_cookie());
+        }
+        else if (old_entry->get_val_type() == log_val_type::conf)
+        {
+            l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
+            conf_dropped = true;
+        }
+    }
+
+    if (conf_dropped)
+    {
+        config_changing_ = is_config_changing(start_idx);
+    }
+}
+
 ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::vote_response, id_, req.get_src()));
@@ -615,7 +619,15 @@ ptr<resp_msg> raft_server::handle_log_sync_req(req_msg& req)
     // only committed logs are packed, and only the logs right after the committed ones could be applied
     if (req.get_last_log_idx() == quick_commit_idx_)
     {
-        log_store_->apply_pack(req.get_last_log_idx() + 1, entries[0]->get_buf());
+        // this server may have been in the cluster before, leave the logs alone if they match what the leader has, as
+        // the logs behind the packed ones may have been accepted as a member
+        if (req.get_last_log_term() == 0 || req.get_commit_idx() >= log_store_->next_slot() ||
+            term_for_log(req.get_commit_idx()) != req.get_last_log_term())
+        {
+            rollback_logs(req.get_last_log_idx() + 1);
+            log_store_->apply_pack(req.get_last_log_idx() + 1, entries[0]->get_buf());
+        }
+
         commit(std::min(req.get_commit_idx(), log_store_->next_slot() - 1));
     }
 
@@ -659,14 +671,16 @@ void raft_server::sync_log_to_new_srv(ulong start_idx)
     {
         int32 size_to_sync = std::min(gap, ctx_->params_->log_sync_batch_size_);
         bufptr log_pack = log_store_->pack(start_idx, size_to_sync);
+        // the commit index is the last packed log, and the last log term is the term of that log
+        ulong last_packed_idx = start_idx + size_to_sync - 1;
         req = cs_new<req_msg>(
             state_->get_term(),
             msg_type::sync_log_request,
             id_,
             srv_to_join_->get_id(),
-            0L,
+            term_for_log(last_packed_idx),
             start_idx - 1,
-            quick_commit_idx_);
+            last_packed_idx);
         req->log_entries().push_back(
             cs_new<log_entry>(state_->get_term(), std::move(log_pack), log_val_type::log_pack));
     }
-- 
2.43.0


From ab0814ac78cddf94ba6b1bfcc183041b823cd416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:11 +0000
Subject: [PATCH 49/49] fix: an entry of a request that claims more bytes than
 there are was read beyond the buffer

---
 src/buffer.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.cxx b/src/buffer.cxx
index 0f18c01..2ac453c 100644
--- a/src/buffer.cxx
+++ b/src/buffer.cxx
@@ -246,6 +246,11 @@ void buffer::put(const std::string& str)
 void buffer::get(bufptr& dst)
 {
     size_t sz = dst->size() - dst->pos();
+    if (size() - pos() < sz)
+    {
+        throw std::overflow_error("insufficient buffer available to fill the other buffer");
+    }
+
     ::memcpy(dst->data(), data(), sz);
     __mv_fw_block(this, sz);
 }
-- 
2.43.0

