// Simulated kernel objects for the asio service: epoll, eventfd, timerfd, TCP sockets, name lookup.
#pragma once
#include "rt.h"
namespace simnet {
extern rt::u32 p_short_ppm;      // send and recv move fewer bytes than they could
extern rt::u32 p_intr_ppm;       // system calls are interrupted (EINTR)
extern rt::u32 p_slow_ppm;       // a segment or connection attempt takes long
extern rt::u32 p_refuse_ppm;     // a connection attempt fails
extern rt::u32 p_accept_ppm;     // accept fails
extern rt::u32 p_socket_ppm;     // socket() fails
extern rt::u32 p_resolve_ppm;    // name lookup fails
extern rt::i64 window;           // bytes a direction of a connection holds
extern bool faults_on, v6_first;
void close_all(int node);        // the process of the node died: connections are reset
int reset_some(rt::u64 which);   // reset one of the live connections; number of live ones
void links_changed();            // link_of answers differently now
int reset_between(int a, int b); // reset the connections a made to b
extern int (*link_of)(int from, int to);  // 0 open, 1 packets are lost (and sent again), 2 connections break; null: always open
int live();                      // established connections
}
