// Simulated sockets and network.
#include "simnet.h"
#include <cerrno>
#include <cstdlib>
#include <algorithm>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <sys/ioctl.h>

namespace sim {
NetCfg g_net; int g_sigpipe_ignored = 0; bool g_sigpipe_blocked = false; u64 g_dgram_delivered = 0;
static std::vector<SockP> all;   // closed sockets stay: the stack still answers for them
 static u64 next_id = 1; static u16 next_port = 40000;
static std::map<std::pair<u32, u16>, i64> time_wait; static const u32 LOOP = 0x0100007f; static u32 default_host = LOOP;
void net_set_host(u32 ip) { default_host = ip ? ip : LOOP; }
void net_reset() { all.clear(); time_wait.clear(); g_net = NetCfg(); next_port = 40000; default_host = LOOP; g_sigpipe_ignored = 0; g_sigpipe_blocked = false; next_id = 1; }
SockP net_sock(int fd) { Handle *h = handle_get(fd); return h ? h->sock : nullptr; }
int net_open_sockets() { int n = 0; for (auto &h : handle_all()) if (h.second.sock) n++; return n; }
std::vector<SockP> net_all() { return all; }
static int ep(std::vector<int> v) { return v[choose((u32)v.size())]; }
static i64 latency() { if (g_net.lat_max <= 0) return 0; i64 l = range(g_net.lat_min, g_net.lat_max); if (l > g_net.lat_min) { fault_count[F_NET_DELAY]++; } return l; }
static u32 dest_host(const Sock &s, u32 dst) { return (dst & 0xff) == 127 || dst == 0 ? s.host : dst; }
static u32 src_seen(const Sock &s, u32 dst) { if (s.laddr && (s.laddr & 0xff) != 127) return s.laddr; return (dst & 0xff) == 127 || dst == 0 ? LOOP : s.host; }
static bool reached_at(const Sock &q, u32 dst) { return q.laddr == 0 || q.laddr == dst; }   // bound to any address, or to the one used
static SockP add_sock(int type) { SockP s = std::make_shared<Sock>(); s->type = type; s->host = default_host; s->id = next_id++; all.push_back(s); return s; }
static bool in_use(u32 host, int type, u16 port) { for (auto &s : net_all()) if (!s->closed && s->bound && s->type == type && s->host == host && s->lport == port) return true; return false; }
bool net_port_free(u32 host, int type, u16 p) { return !in_use(host ? host : LOOP, type, p); }
static void autobind(Sock &s) { if (s.bound) return; for (;;) { u16 p = htons(next_port++); if (!in_use(s.host, s.type, p)) { s.lport = p; s.bound = true; return; } } }
static void reset_sock(const SockP &s) {
    if (s->closed || s->reset) return;
    s->reset = true; s->err = s->rx_fin ? EPIPE : ECONNRESET; ev("sock#%llu reset by peer", (unsigned long long)s->id);
}
void net_inject_rst(SockP s) {
    if (!s || !s->connected || s->reset) return;
    note_fault(F_NET_RST); reset_sock(s);
    if (SockP p = s->peer.lock()) reset_sock(p);
}
static void send_fin(const SockP &s) {
    SockP p = s->peer.lock(); if (!p || s->wr_shut) { s->wr_shut = true; return; }
    s->wr_shut = true; i64 t = std::max(p->last_arrival, g_now + latency()); p->last_arrival = t; std::weak_ptr<Sock> wp = p;
    at_time(t, [wp] { if (auto q = wp.lock()) { q->rx_fin = true; ev("sock#%llu sees end of stream", (unsigned long long)q->id); } });
}
static void send_rst(const SockP &s) {
    SockP p = s->peer.lock(); if (!p) return;
    i64 t = std::max(p->last_arrival, g_now + latency()); p->last_arrival = t; std::weak_ptr<Sock> wp = p;
    at_time(t, [wp] { if (auto q = wp.lock()) reset_sock(q); });
}
int net_close(int fd) {
    Handle *h = handle_get(fd); SockP s = h->sock; handle_drop(fd);
    bool other = false; for (auto &x : handle_all()) if (x.second.sock == s) other = true;
    if (!other) {
        if (s->type == SOCK_STREAM && s->connected && !s->reset) {
            if (!s->rx.empty()) send_rst(s);
            else if (s->linger0) { if (SockP p = s->peer.lock()) reset_sock(p); }   // an abortive close throws away what was not yet delivered
            else { if (!s->rx_fin) time_wait[{s->host, s->lport}] = g_now + 60000000; send_fin(s); }
        }
        for (auto &q : s->acceptq) { q->closed = true; send_rst(q); }
        s->acceptq.clear(); s->closed = true;
    }
    if (inject(F_SOCKCLOSE)) { errno = ep({EIO, EINTR}); ev("close sock#%llu = -1 (injected)", (unsigned long long)s->id); return -1; }
    ev("close sock#%llu", (unsigned long long)s->id); return 0;
}
void net_kill_sock(int fd) { Handle *h = handle_get(fd); if (!h || !h->sock) return; note_fault(F_PEER_CLOSE); Plan keep = g_plan; g_plan = Plan(); net_close(fd); g_plan = keep; }
static bool readable(const Sock &s) {
    if (s.err) return true;
    if (s.listening) return !s.acceptq.empty();
    if (s.type == SOCK_DGRAM) return !s.dq.empty() || s.rd_shut;
    return !s.rx.empty() || s.rx_fin || s.rd_shut || s.reset || !s.connected;
}
static size_t space(const Sock &s) { SockP p = s.peer.lock(); if (!p) return g_net.window; size_t u = p->rx.size() + p->inflight; return u >= g_net.window ? 0 : g_net.window - u; }
static bool writable(const Sock &s) { if (s.connecting) return false; if (s.err || s.reset || s.wr_shut) return true; if (s.type == SOCK_DGRAM) return true; SockP p = s.peer.lock(); if (!p || p->closed) return true; return space(s) > 0; }
static short events_of(int fd, short want) {
    Handle *h = handle_get(fd); if (!h) return POLLNVAL;
    if (!h->sock) return want & (POLLIN | POLLOUT);
    Sock &s = *h->sock; short r = 0;
    bool only_err = s.type == SOCK_DGRAM && s.err && s.dq.empty() && !s.rd_shut; // a pending error alone is POLLERR, not POLLIN
    if (readable(s) && !only_err) r |= (POLLIN | POLLRDNORM) & want;
    if (!s.listening && writable(s)) r |= (POLLOUT | POLLWRNORM) & want;
    if (s.err) r |= POLLERR;
    if (s.type == SOCK_STREAM && !s.listening && (s.reset || (s.rx_fin && s.wr_shut) || (!s.connected && !s.connecting))) r |= POLLHUP;
    if (s.type == SOCK_STREAM && s.rx_fin) r |= POLLRDHUP & want;
    return r;
}
static void sigpipe() { if (!g_sigpipe_ignored && !g_sigpipe_blocked) { ev("SIGPIPE"); end_task(SIGNALED, SIGPIPE); } }
static ssize_t pipe_error(Sock &s, int flags) {
    int e = EPIPE; if (s.err) { e = s.err; s.err = 0; }
    if (e == EPIPE && !(flags & MSG_NOSIGNAL)) sigpipe();
    errno = e; ev("send sock#%llu = -1 %d", (unsigned long long)s.id, e); return -1;
}
static void push_bytes(const SockP &s, const char *b, size_t n) {
    SockP p = s->peer.lock(); s->sent_total += n;
    size_t off = 0;
    while (off < n) {
        size_t m = n - off; if (g_net.split && m > 1 && chance(1, 3)) m = 1 + choose((u32)(m - 1));
        if (p) {
            std::string seg(b + off, m); i64 t = std::max(p->last_arrival, g_now + latency()); p->last_arrival = t; p->inflight += m; std::weak_ptr<Sock> wp = p, ws = s;
            at_time(t, [wp, ws, seg] {
                auto q = wp.lock(); auto o = ws.lock(); if (!q) return;
                q->inflight -= seg.size();
                if (q->closed) { if (o) { std::weak_ptr<Sock> w2 = o; i64 t2 = std::max(o->last_arrival, g_now + latency()); at_time(t2, [w2] { if (auto x = w2.lock()) reset_sock(x); }); } return; }
                if (q->reset) return;
                q->rx += seg;
            });
        }
        off += m;
    }
}
static ssize_t stream_send(const SockP &s, const char *b, size_t n, int flags) {
    if (!s->connected) { if (!(flags & MSG_NOSIGNAL)) sigpipe(); errno = s->connecting ? EAGAIN : EPIPE; return -1; }
    if (inject(F_SEND_ERR)) { errno = ep({ENOBUFS, ETIMEDOUT, EHOSTUNREACH, EINTR}); ev("send = -1 (injected %d)", errno); return -1; }
    if (s->reset || s->err || s->wr_shut) return pipe_error(*s, flags);
    size_t want = n; bool part = false;
    if (n > 1 && inject(F_SEND_PARTIAL)) { want = 1 + choose((u32)(n - 1)); part = true; }
    size_t done = 0; bool nb = s->nonblock || (flags & MSG_DONTWAIT); i64 dl = s->sndtimeo >= 0 ? g_now + s->sndtimeo : -1;
    while (done < want) {
        SockP p = s->peer.lock(); size_t sp = (!p || p->closed) ? want - done : space(*s);
        if (sp == 0) {
            if (nb) { if (done) break; errno = EAGAIN; return -1; }
            block_until([s] { SockP q = s->peer.lock(); return s->reset || s->err || !q || q->closed || space(*s) > 0; }, dl);
            if (s->reset || s->err) { if (done) break; return pipe_error(*s, flags); }
            if (dl >= 0 && g_now >= dl && space(*s) == 0 && !(s->peer.lock() && s->peer.lock()->closed)) { if (done) break; errno = EAGAIN; return -1; }
            continue;
        }
        size_t m = std::min(sp, want - done); push_bytes(s, b + done, m - ((flags & MSG_OOB) && done + m == want)); done += m;   // an out-of-band byte leaves the stream
    }
    ev("send sock#%llu %zu of %zu%s", (unsigned long long)s->id, done, n, part ? " (partial)" : "");
    return (ssize_t)done;
}
static ssize_t stream_recv(const SockP &s, char *b, size_t n, int flags) {
    if (flags & MSG_OOB) { errno = EINVAL; ev("recv out of band = -1"); return -1; }  // nothing is ever sent out of band
    if (!s->connected) { errno = ENOTCONN; return -1; }
    if (inject(F_RECV_ERR)) { errno = ep({ETIMEDOUT, ENOMEM, EHOSTUNREACH, EINTR}); ev("recv = -1 (injected %d)", errno); return -1; }
    bool nb = s->nonblock || (flags & MSG_DONTWAIT); i64 dl = s->rcvtimeo >= 0 ? g_now + s->rcvtimeo : -1;
    size_t need = (flags & MSG_WAITALL) ? n : 1;
    if (n == 0) return 0;
    for (;;) {
        if (s->rx.size() >= need || (!s->rx.empty() && (s->rx_fin || s->reset))) {
            size_t m = std::min(n, s->rx.size());
            if (m > 1 && !(flags & MSG_WAITALL) && inject(F_RECV_PARTIAL)) m = 1 + choose((u32)(m - 1));
            if (!(flags & MSG_TRUNC)) memcpy(b, s->rx.data(), m);   // MSG_TRUNC on a stream discards
            if (!(flags & MSG_PEEK)) s->rx.erase(0, m);
            ev("recv sock#%llu %zu of %zu", (unsigned long long)s->id, m, n); return (ssize_t)m;
        }
        if (s->err) { errno = s->err; s->err = 0; ev("recv sock#%llu = -1 %d", (unsigned long long)s->id, errno); return -1; }
        if (s->rx_fin || s->rd_shut || s->reset) { ev("recv sock#%llu = 0 (end)", (unsigned long long)s->id); return 0; }
        if (nb || (dl >= 0 && g_now >= dl)) { errno = EAGAIN; return -1; }
        if (inject(F_EINTR)) { errno = EINTR; ev("recv = -1 EINTR"); return -1; }
        block_until([s, need] { return s->rx.size() >= need || s->err || s->rx_fin || s->rd_shut || s->reset; }, dl);
    }
}
static ssize_t dgram_send(const SockP &s, const char *b, size_t n, u32 addr, u16 port) {
    if (inject(F_SEND_ERR)) { errno = ep({ENOBUFS, ENETUNREACH, EPERM, EINTR}); ev("sendto = -1 (injected %d)", errno); return -1; }
    if (s->err) { errno = s->err; s->err = 0; return -1; }
    if (n > 65507) { errno = EMSGSIZE; ev("sendto = -1 EMSGSIZE"); return -1; }
    if (port == 0) { errno = EINVAL; return -1; }
    autobind(*s);
    u32 dst = dest_host(*s, addr); u32 from = src_seen(*s, addr); u16 fport = s->lport; std::string data(b, n);
    ev("sendto sock#%llu %zu bytes to %08x:%u", (unsigned long long)s->id, n, addr, ntohs(port));
    int copies = 1;
    if (g_net.drop && choose(64) >= 64 - g_net.drop) { fault_count[F_NET_DROP]++; ev("datagram lost"); copies = 0; }
    else if (g_net.dup && choose(64) >= 64 - g_net.dup) { fault_count[F_NET_DUP]++; ev("datagram duplicated"); copies = 2; }
    std::weak_ptr<Sock> ws = s;
    for (int c = 0; c < copies; c++) {
        i64 l = latency(); if (g_net.reorder && choose(64) >= 64 - g_net.reorder) { l += 5000 + choose(20000); fault_count[F_NET_REORDER]++; }
        at_time(g_now + l, [ws, dst, addr, port, from, fport, data] {
            bool any = false;
            for (auto &q : net_all()) if (q->type == SOCK_DGRAM && !q->closed && q->bound && q->host == dst && q->lport == port && reached_at(*q, addr)) {
                if (q->connected && (q->rport != fport || dest_host(*q, q->raddr) != (from == LOOP ? dst : from))) continue;
                any = true; if (q->dq.size() < 64) { q->dq.push_back({data, from, fport}); g_dgram_delivered++; } break;
            }
            if (!any) if (auto o = ws.lock()) if (o->connected && !o->closed) o->err = ECONNREFUSED;
        });
    }
    return (ssize_t)n;
}
static ssize_t dgram_recv(const SockP &s, char *b, size_t n, int flags, struct sockaddr *a, socklen_t *al) {
    if (flags & MSG_OOB) { errno = EOPNOTSUPP; return -1; }
    if (inject(F_RECV_ERR)) { errno = ep({ENOMEM, EINTR, EIO, ECONNREFUSED}); ev("recvfrom = -1 (injected %d)", errno); return -1; }
    bool nb = s->nonblock || (flags & MSG_DONTWAIT); i64 dl = s->rcvtimeo >= 0 ? g_now + s->rcvtimeo : -1;
    for (;;) {
        if (s->err) { errno = s->err; s->err = 0; return -1; }
        if (!s->dq.empty()) {
            Dgram d = s->dq.front(); if (!(flags & MSG_PEEK)) { s->dq.pop_front(); s->popped++; s->last = d; }
            size_t m = std::min(n, d.data.size()); memcpy(b, d.data.data(), m);
            if (a && al) { struct sockaddr_in in = {}; in.sin_family = AF_INET; in.sin_addr.s_addr = d.addr; in.sin_port = d.port; memcpy(a, &in, std::min<size_t>(*al, sizeof in)); *al = sizeof in; }
            ev("recvfrom sock#%llu %zu of %zu from %08x:%u", (unsigned long long)s->id, m, d.data.size(), d.addr, ntohs(d.port));
            return (flags & MSG_TRUNC) ? (ssize_t)d.data.size() : (ssize_t)m;
        }
        if (s->rd_shut) return 0;
        if (nb || (dl >= 0 && g_now >= dl)) { errno = EAGAIN; return -1; }
        if (inject(F_EINTR)) { errno = EINTR; ev("recvfrom = -1 EINTR"); return -1; }
        block_until([s] { return s->err || !s->dq.empty() || s->rd_shut; }, dl);
    }
}
ssize_t net_write(int fd, const char *b, size_t n) { SockP s = net_sock(fd); return s->type == SOCK_STREAM ? stream_send(s, b, n, 0) : dgram_send(s, b, n, s->raddr, s->rport); }
ssize_t net_read(int fd, char *b, size_t n) { SockP s = net_sock(fd); return s->type == SOCK_STREAM ? stream_recv(s, b, n, 0) : dgram_recv(s, b, n, 0, nullptr, nullptr); }
}
using namespace sim;
extern "C" {
int sim_socket(int dom, int type, int proto) {
    sys("socket"); int t = type & 0xf; 
    if (inject(F_SOCKET)) { errno = ep({EMFILE, ENFILE, ENOBUFS, EACCES}); ev("socket = -1 (injected)"); return -1; }
    if (dom != AF_INET || (t != SOCK_STREAM && t != SOCK_DGRAM)) { errno = EAFNOSUPPORT; return -1; }
    if (proto != 0 && proto != (t == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP)) { errno = EPROTONOSUPPORT; return -1; }
    Handle h; h.sock = add_sock(t); h.sock->nonblock = (type & SOCK_NONBLOCK) != 0; int fd = handle_new(h); ev("socket %s = sock#%llu", t == SOCK_STREAM ? "tcp" : "udp", (unsigned long long)h.sock->id); return fd;
}
#define SOCK_OR_FAIL(s, fd) SockP s = net_sock(fd); if (!s) { errno = handle_get(fd) ? ENOTSOCK : EBADF; return -1; }
int sim_setsockopt(int fd, int lev, int opt, const void *v, socklen_t n) {
    sys("setsockopt"); SOCK_OR_FAIL(s, fd);
    if (inject(F_SOCKOPT)) { errno = ep({ENOPROTOOPT, EINVAL, ENOMEM}); ev("setsockopt = -1 (injected)"); return -1; }
    if (lev == SOL_SOCKET && opt == SO_REUSEADDR) { if (n < sizeof(int)) { errno = EINVAL; return -1; } s->reuse = *(const int *)v != 0; }
    if (lev == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) { const struct timeval *tv = (const struct timeval *)v; i64 us = tv->tv_sec * 1000000ll + tv->tv_usec; (opt == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo) = us ? us : -1; }
    if (lev == SOL_SOCKET && opt == SO_LINGER && n >= sizeof(struct linger)) { const struct linger *l = (const struct linger *)v; s->linger0 = l->l_onoff && l->l_linger == 0; }
    return 0;
}
int sim_getsockopt(int fd, int, int opt, void *v, socklen_t *n) { sys("getsockopt"); SOCK_OR_FAIL(s, fd); int r = 0; if (opt == SO_ERROR) { r = s->err; s->err = 0; } else if (opt == SO_TYPE) r = s->type; memcpy(v, &r, std::min<size_t>(*n, 4)); return 0; }
int sim_bind(int fd, const struct sockaddr *a, socklen_t alen) {
    sys("bind"); SOCK_OR_FAIL(s, fd); const struct sockaddr_in *in = (const struct sockaddr_in *)a;
    if (inject(F_BIND)) { errno = ep({EADDRINUSE, EACCES, EADDRNOTAVAIL}); ev("bind = -1 (injected)"); return -1; }
    if (alen < sizeof *in) { errno = EINVAL; return -1; }
    if (in->sin_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
    if (s->bound) { errno = EINVAL; return -1; }
    if (in->sin_port) {
        for (auto &q : net_all()) if (!q->closed && q->bound && q->type == s->type && q->host == s->host && q->lport == in->sin_port && !(q->type == SOCK_STREAM && q->connected && s->reuse)) {
            bool okk = s->reuse && q->reuse && !q->listening; if (!okk) { errno = EADDRINUSE; ev("bind %u = EADDRINUSE", ntohs(in->sin_port)); return -1; }
        }
        auto tw = time_wait.find({s->host, in->sin_port}); if (s->type == SOCK_STREAM && tw != time_wait.end() && tw->second > g_now && !s->reuse) { errno = EADDRINUSE; ev("bind %u = EADDRINUSE (TIME_WAIT)", ntohs(in->sin_port)); return -1; }
        s->lport = in->sin_port; s->bound = true;
    } else autobind(*s);
    s->laddr = in->sin_addr.s_addr; ev("bind sock#%llu %08x:%u", (unsigned long long)s->id, s->laddr, ntohs(s->lport)); return 0;
}
int sim_listen(int fd, int bl) {
    sys("listen"); SOCK_OR_FAIL(s, fd);
    if (inject(F_LISTEN)) { errno = ep({EADDRINUSE, EOPNOTSUPP}); ev("listen = -1 (injected)"); return -1; }
    if (s->type != SOCK_STREAM) { errno = EOPNOTSUPP; return -1; }
    autobind(*s);
    for (auto &q : net_all()) if (q != s && !q->closed && q->listening && q->host == s->host && q->lport == s->lport) { errno = EADDRINUSE; return -1; }
    s->listening = true; s->backlog = bl < 0 ? 0 : bl; ev("listen sock#%llu backlog %d", (unsigned long long)s->id, bl); return 0;
}
int sim_connect(int fd, const struct sockaddr *a, socklen_t alen) {
    sys("connect"); SOCK_OR_FAIL(s, fd); const struct sockaddr_in *in = (const struct sockaddr_in *)a;
    if (inject(F_CONNECT)) { errno = ep({ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EINTR}); ev("connect = -1 (injected %d)", errno); return -1; }
    if (alen < sizeof *in) { errno = EINVAL; return -1; }
    if (in->sin_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
    if (s->type == SOCK_DGRAM) { autobind(*s); s->connected = true; s->raddr = in->sin_addr.s_addr; s->rport = in->sin_port; ev("connect udp sock#%llu %08x:%u", (unsigned long long)s->id, s->raddr, ntohs(s->rport)); return 0; }
    if (s->connected) { errno = EISCONN; return -1; }
    u32 host = dest_host(*s, in->sin_addr.s_addr); u16 port = in->sin_port; autobind(*s);
    i64 arrive = g_now + latency(), give_up = g_now + 130000000;
    block_until([] { return false; }, arrive);
    u32 daddr = in->sin_addr.s_addr; auto find = [host, port, daddr]() -> SockP { for (auto &q : net_all()) if (!q->closed && q->listening && q->host == host && q->lport == port && reached_at(*q, daddr)) return q; return nullptr; };
    for (;;) {
        SockP l = find(); if (!l) { errno = ECONNREFUSED; ev("connect %08x:%u refused", in->sin_addr.s_addr, ntohs(port)); return -1; }
        if ((int)l->acceptq.size() <= l->backlog) {
            SockP c = add_sock(SOCK_STREAM); c->host = host; c->bound = true; c->lport = port; c->laddr = in->sin_addr.s_addr; c->connected = true; c->raddr = src_seen(*s, in->sin_addr.s_addr); c->rport = s->lport;
            c->rcvtimeo = l->rcvtimeo; c->sndtimeo = l->sndtimeo; c->linger0 = l->linger0;   // a connection takes over the options of its listener
            c->peer = s; s->peer = c; s->connected = true; s->raddr = in->sin_addr.s_addr; s->rport = port; l->acceptq.push_back(c);
            i64 back = g_now + latency(); block_until([] { return false; }, back);
            ev("connect sock#%llu to %08x:%u", (unsigned long long)s->id, s->raddr, ntohs(port)); return 0;
        }
        if (g_now >= give_up) { errno = ETIMEDOUT; return -1; }
        block_until([find] { SockP q = find(); return !q || (int)q->acceptq.size() <= q->backlog; }, give_up);
    }
}
int sim_accept4(int fd, struct sockaddr *a, socklen_t *al, int fl) {
    sys("accept"); SOCK_OR_FAIL(s, fd); if (!s->listening) { errno = EINVAL; return -1; }
    if (inject(F_ACCEPT)) { errno = ep({ECONNABORTED, EMFILE, EINTR, ENFILE}); ev("accept = -1 (injected %d)", errno); return -1; }
    if (s->acceptq.empty()) { if (s->nonblock) { errno = EAGAIN; return -1; } block_until([s] { return !s->acceptq.empty() || s->closed; }, s->rcvtimeo >= 0 ? g_now + s->rcvtimeo : -1); if (s->acceptq.empty() && !s->closed) { errno = EAGAIN; ev("accept = -1 EAGAIN"); return -1; } if (s->acceptq.empty()) { errno = EBADF; return -1; } }
    SockP c = s->acceptq.front(); s->acceptq.pop_front(); Handle h; h.sock = c; c->nonblock = (fl & SOCK_NONBLOCK) != 0; int nfd = handle_new(h);
    if (a && al) { struct sockaddr_in in = {}; in.sin_family = AF_INET; in.sin_addr.s_addr = c->raddr; in.sin_port = c->rport; memcpy(a, &in, std::min<size_t>(*al, sizeof in)); *al = sizeof in; }
    ev("accept sock#%llu", (unsigned long long)c->id); return nfd;
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *al) { return sim_accept4(fd, a, al, 0); }
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t alen) {
    sys("send"); SOCK_OR_FAIL(s, fd);
    if (s->type == SOCK_STREAM) return stream_send(s, (const char *)b, n, fl);
    if (a) { const struct sockaddr_in *in = (const struct sockaddr_in *)a; if (alen < sizeof *in) { errno = EINVAL; return -1; } if (in->sin_family != AF_INET && in->sin_family != AF_UNSPEC) { errno = EAFNOSUPPORT; return -1; } return dgram_send(s, (const char *)b, n, in->sin_addr.s_addr, in->sin_port); }
    if (!s->connected) { errno = EDESTADDRREQ; return -1; }
    return dgram_send(s, (const char *)b, n, s->raddr, s->rport);
}
ssize_t sim_send(int fd, const void *b, size_t n, int fl) { return sim_sendto(fd, b, n, fl, nullptr, 0); }
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl) { std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return sim_sendto(fd, s.data(), s.size(), fl, (const struct sockaddr *)m->msg_name, m->msg_namelen); }
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al) {
    sys("recv"); SOCK_OR_FAIL(s, fd);
    if (s->type == SOCK_STREAM) { if (al) *al = 0; return stream_recv(s, (char *)b, n, fl); }
    return dgram_recv(s, (char *)b, n, fl, a, al);
}
ssize_t sim_recv(int fd, void *b, size_t n, int fl) { return sim_recvfrom(fd, b, n, fl, nullptr, nullptr); }
ssize_t sim_recvmsg(int fd, struct msghdr *m, int fl) {
    if (m->msg_iovlen != 1) harness_error("recvmsg with several buffers is not simulated");
    ssize_t r = sim_recvfrom(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, (struct sockaddr *)m->msg_name, m->msg_name ? &m->msg_namelen : nullptr); m->msg_flags = 0; m->msg_controllen = 0; return r;
}
static int poll_us(struct pollfd *p, nfds_t n, i64 timeout_us) {
    sys("poll");
    if (inject(F_POLL)) { errno = ep({ENOMEM, EINVAL}); ev("poll = -1 (injected)"); return -1; }
    i64 dl = timeout_us < 0 ? -1 : g_now + timeout_us;
    auto ready = [p, n] { for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0 && events_of(p[i].fd, p[i].events)) return true; return false; };
    if (!ready() && timeout_us != 0 && inject(F_EINTR)) { block_until(ready, g_now + (timeout_us < 0 ? 1000 : timeout_us / 2)); if (!ready()) { errno = EINTR; ev("poll = -1 EINTR"); return -1; } }
    block_until(ready, dl);
    int c = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = p[i].fd < 0 ? 0 : events_of(p[i].fd, p[i].events); if (p[i].revents) c++; }
    ev("poll %d of %d timeout %lld = %d", (int)n, (int)n, (long long)timeout_us, c); return c;
}
int sim_poll(struct pollfd *p, nfds_t n, int t) { return poll_us(p, n, t < 0 ? -1 : (i64)t * 1000); }
int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *) { return poll_us(p, n, t ? t->tv_sec * 1000000ll + t->tv_nsec / 1000 : -1); }
int sim_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
    std::vector<pollfd> v; for (int i = 0; i < n; i++) { short e = 0; if (r && FD_ISSET(i, r)) e |= POLLIN; if (w && FD_ISSET(i, w)) e |= POLLOUT; if (e || (x && FD_ISSET(i, x))) v.push_back({i, e, 0}); }
    for (auto &q : v) if (!handle_get(q.fd)) { errno = EBADF; return -1; }
    int k = poll_us(v.data(), v.size(), t ? t->tv_sec * 1000000ll + t->tv_usec : -1); if (k < 0) return -1;
    int c = 0;
    for (fd_set *q : {r, w, x}) if (q) FD_ZERO(q);
    for (auto &q : v) { if (r && (q.revents & (POLLIN | POLLERR | POLLHUP)) && (q.events & POLLIN)) { FD_SET(q.fd, r); c++; } if (w && (q.revents & (POLLOUT | POLLERR)) && (q.events & POLLOUT)) { FD_SET(q.fd, w); c++; } }
    return c;
}
int sim_shutdown(int fd, int how) { sys("shutdown"); SOCK_OR_FAIL(s, fd); if (!s->connected) { errno = ENOTCONN; return -1; } if (how != SHUT_RD) send_fin(s); if (how != SHUT_WR) s->rd_shut = true; return 0; }
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *n) { SOCK_OR_FAIL(s, fd); struct sockaddr_in in = {}; in.sin_family = AF_INET; in.sin_addr.s_addr = s->laddr; in.sin_port = s->lport; memcpy(a, &in, std::min<size_t>(*n, sizeof in)); *n = sizeof in; return 0; }
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *n) { SOCK_OR_FAIL(s, fd); if (!s->connected) { errno = ENOTCONN; return -1; } struct sockaddr_in in = {}; in.sin_family = AF_INET; in.sin_addr.s_addr = s->raddr; in.sin_port = s->rport; memcpy(a, &in, std::min<size_t>(*n, sizeof in)); *n = sizeof in; return 0; }
int sim_fcntl(int fd, int cmd, ...) {
    va_list a; va_start(a, cmd); long v = va_arg(a, long); va_end(a); Handle *h = handle_get(fd); if (!h) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return h->sock ? O_RDWR | (h->sock->nonblock ? O_NONBLOCK : 0) : h->flags;
    if (cmd == F_SETFL) { if (h->sock) h->sock->nonblock = (v & O_NONBLOCK) != 0; return 0; }
    return 0;
}
int sim_ioctl(int fd, unsigned long req, ...) {
    va_list a; va_start(a, req); int *p = va_arg(a, int *); va_end(a); SOCK_OR_FAIL(s, fd);
    if (req == FIONREAD) { *p = s->type == SOCK_STREAM ? (int)s->rx.size() : s->dq.empty() ? 0 : (int)s->dq.front().data.size(); return 0; }
    if (req == FIONBIO) { s->nonblock = *p != 0; return 0; }
    errno = EINVAL; return -1;
}
typedef void (*sighandler)(int);
sighandler sim_signal(int s, sighandler h) { if (s == SIGPIPE) g_sigpipe_ignored = h != SIG_DFL; return SIG_DFL; }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (o) memset(o, 0, sizeof *o); if (s == SIGPIPE && a) g_sigpipe_ignored = a->sa_handler != SIG_DFL; return 0; }
static int mask(int how, const sigset_t *n, sigset_t *o) {
    if (o) { sigemptyset(o); if (g_sigpipe_blocked) sigaddset(o, SIGPIPE); }
    if (n) { bool in = sigismember(n, SIGPIPE) == 1; if (how == SIG_BLOCK) g_sigpipe_blocked |= in; else if (how == SIG_UNBLOCK) { if (in) g_sigpipe_blocked = false; } else g_sigpipe_blocked = in; }
    return 0;
}
int sim_sigprocmask(int h, const sigset_t *n, sigset_t *o) { return mask(h, n, o); }
int sim_pthread_sigmask(int h, const sigset_t *n, sigset_t *o) { return mask(h, n, o); }
int sim_sigtimedwait(const sigset_t *, void *, const struct timespec *) { errno = EAGAIN; return -1; }
}
