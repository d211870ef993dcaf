#!/bin/bash
# builds the demonstration against the sources in the current directory (the repository) and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
cd "$out" || exit 2
FL="-std=c++17 -O0 -w -DASIO_STANDALONE -DASIO_HAS_STD_CHRONO -I$repo/include -I$repo/asio/asio/include"
pids=""
for s in buffer cluster_config fs_log_store peer raft_server raft_server_req_handlers raft_server_resp_handlers snapshot snapshot_sync_req srv_config; do
  g++ $FL -c "$repo/src/$s.cxx" -o "$s.o" & pids="$pids $!"
done
g++ $FL -c "$here/demo.cxx" -o demo.o & pids="$pids $!"
for p in $pids; do wait $p || exit 2; done
g++ -o demo *.o -lpthread || exit 2
timeout 120 ./demo
