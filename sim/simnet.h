#pragma once
#include "handles.h"
#include <deque>
namespace sim {
struct Dgram { std::string data; u32 addr; u16 port; };
typedef std::shared_ptr<Sock> SockP;
struct Sock {
    int type = 0; u32 host = 0, laddr = 0, raddr = 0; u16 lport = 0, rport = 0; bool bound = false, connected = false, listening = false, reuse = false, nonblock = false, refused = false, connecting = false;
    int backlog = 0; std::deque<SockP> acceptq; std::weak_ptr<Sock> peer; std::string rx; size_t inflight = 0; bool rx_fin = false, wr_shut = false, rd_shut = false, closed = false, reset = false;
    int err = 0; i64 last_arrival = 0; std::deque<Dgram> dq; i64 rcvtimeo = -1, sndtimeo = -1; u64 id = 0; bool crashed = false, linger0 = false;
    u64 sent_total = 0;       // bytes accepted for sending
    u64 popped = 0; Dgram last;   // datagrams taken by the receiver, and the last of them
};
SockP net_sock(int fd);
void net_kill_sock(int fd);                  // the process holding the socket dies: the system closes it
void net_set_host(u32 ip);                   // host (network order) of sockets created from now on; 0 = loopback host
void net_inject_rst(SockP s);                // the connection of s is reset, as seen by s
std::vector<SockP> net_all();
extern int g_sigpipe_ignored; extern bool g_sigpipe_blocked;
extern u64 g_dgram_delivered;
bool net_port_free(u32 host, int type, u16 port_net);
}
