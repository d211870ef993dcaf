// The whole stack: the listener's sessions reach the server through the oracles. Compiled like asio_service.cxx
// in this executable, with process_req renamed, so that its calls arrive here.
#define process_req process_req_observed
#include "cornerstone.hxx"
namespace cl { cornerstone::ptr<cornerstone::resp_msg> observe(cornerstone::raft_server* srv, cornerstone::req_msg& req); }
namespace cornerstone { ptr<resp_msg> raft_server::process_req(req_msg& req) { return cl::observe(this, req); } }
