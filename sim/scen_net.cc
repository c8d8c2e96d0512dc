// C20-C24: sockets on a simulated network.
#include "scen.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
extern "C" { int sim_close(int); }

namespace {
const i64 SLACK = 400;         // simulated microseconds of call overhead
char pat(u32 key, u64 off) { return (char)mix((u64)key * 1000003 + off); }
// a daemon has closed its standard input: the first descriptor given out is 0
void stdin_closed() { g_stdin_closed = (int)choose(4); ev("standard input closed, %d descriptors open", g_stdin_closed); probe("standard input closed"); }
void net_config() {
    if (choose(12) == 11) stdin_closed();
    g_net = NetCfg(); switch (choose(3)) { case 0: break; case 1: g_net.lat_max = 1 + (int)choose(2000); break; default: g_net.lat_min = (int)choose(5000); g_net.lat_max = g_net.lat_min + (int)choose(20000); }
    static const std::vector<size_t> win = {65536, 1, 7, 64, 1000, 4096, 16384}; g_net.window = pick(win); g_net.split = choose(2);
    ev("network latency %d-%d window %zu split %d", g_net.lat_min, g_net.lat_max, g_net.window, g_net.split);
}
struct VitaSocketAddress loop_addr(u16 port) { return vt_socket_make_address((int16_t)port, "127.0.0.1"); }
u16 gen_port() { switch (choose(4)) { case 0: return (u16)(1024 + choose(9000)); case 1: return (u16)(32760 + choose(20)); case 2: return (u16)(50000 + choose(15535)); default: return (u16)(1 + choose(65535)); } }

// one direction of a connection: what was reported as sent and what was received
struct Flow { u32 key = 0; u64 sent = 0, got = 0; bool ended = false, failed = false; };
struct Conn { vt_socket_t fd = -1; SockP s; };

// a send whose result is judged against what the system accepted
int32_t judged_send(const char *who, Conn &c, Flow &f, size_t n, bool may_fail) {
    char *b = (char *)mem_alloc(n ? n : 1, false); for (size_t i = 0; i < n; i++) b[i] = pat(f.key, f.sent + i);
    u64 t0 = c.s->sent_total; u32 h0 = task_hard(cur_task()); int32_t r = vt_socket_send(c.fd, b, n); u64 moved = c.s->sent_total - t0; bool hard = task_hard(cur_task()) != h0; mem_free(b);
    CHECK(r >= 0 || r == VT_SOCKET_STATUS_ERROR_SEND, "wrong-status", "%s: vt_socket_send returned %d", who, r);
    CHECK(r <= (int64_t)n, "too-many", "%s: vt_socket_send of %zu bytes returned %d", who, n, r);
    if (r >= 0) CHECK((u64)r == moved, "wrong-count", "%s: vt_socket_send returned %d but %llu bytes were accepted", who, r, (unsigned long long)moved);
    else { CHECK(moved == 0, "wrong-count", "%s: vt_socket_send failed although %llu bytes were accepted", who, (unsigned long long)moved); CHECK(hard || may_fail || c.s->reset, "spurious-error", "%s: vt_socket_send of %zu bytes failed without a reason", who, n); }
    if (r == 0 && n) CHECK(!hard, "error-hidden", "%s: vt_socket_send returned 0 although sending failed", who);
    if (r > 0) f.sent += (u64)r;
    return r;
}
// a receive whose bytes are judged against the sender's
int32_t judged_recv(const char *who, Conn &c, Flow &f, size_t n, int64_t timeout, bool may_fail) {
    char *b = (char *)mem_alloc(n ? n : 1, false); u32 h0 = task_hard(cur_task()); i64 t0 = g_now; struct VitaSocketAddress ad = {0x1111, 0x22222222}; const char fill = (char)0xC3; if (n) memset(b, fill, n);
    bool from = choose(4) == 3; int32_t r = timeout < 0 ? (from ? vt_socket_receive_from(c.fd, &ad, b, n) : vt_socket_receive(c.fd, b, n)) : (from ? vt_socket_receive_timed_from(c.fd, &ad, b, n, (uint32_t)timeout) : vt_socket_receive_timed(c.fd, b, n, (uint32_t)timeout)); bool hard = task_hard(cur_task()) != h0;
    CHECK(r >= 0 || r == VT_SOCKET_STATUS_ERROR_RECEIVE || (timeout >= 0 && r == VT_SOCKET_STATUS_ERROR_POLL), "wrong-status", "%s: a receive returned %d", who, r);
    CHECK(r <= (int64_t)n, "too-many", "%s: a receive into %zu bytes returned %d", who, n, r);
    for (int32_t i = 0; i < r; i++) CHECK(b[i] == pat(f.key, f.got + (u64)i), "wrong-bytes", "%s: byte %llu of the stream differs from the byte sent", who, (unsigned long long)(f.got + (u64)i));
    for (size_t i = (size_t)std::max(r, 0); i < n; i++) CHECK(b[i] == fill, "buffer-touched", "%s: a receive that returned %d changed byte %zu of the buffer", who, r, i);
    if (r > 0) { f.got += (u64)r; }
    else if (r == 0 && n) { bool end = c.s->rx_fin || c.s->reset; bool late = timeout >= 0 && g_now - t0 >= timeout * 1000; if (!late) CHECK(end && c.s->rx.empty(), "false-end", "%s: a receive reported the end of the stream, which has not ended", who); if (end && c.s->rx.empty() && !late) f.ended = true; }
    else if (r < 0) { CHECK(hard || may_fail || c.s->reset, "spurious-error", "%s: a receive failed without a reason", who); f.failed = true; }
    mem_free(b); return r;
}
size_t gen_chunk() { switch (choose(6)) { case 0: return 1 + choose(16); case 1: return 1 + choose(300); case 2: return 1 + choose(4096); case 3: return 1000 + choose(60); case 4: return 1 + choose(70000); default: return 1; } }
size_t gen_buf() { switch (choose(5)) { case 0: return 1 + choose(64); case 1: return 1; case 2: return 1024; case 3: return 1 + choose(9000); default: return 65536; } }
size_t chunk_for(size_t cap) { size_t n = gen_chunk(); return n > cap ? 1 + n % cap : n; }
void no_hang(const std::vector<int> &ids, const char *what) {
    for (int t : ids) { Outcome o = task_outcome(t); CHECK(o != BLOCKED, "stuck", "%s: a task waits for ever although nothing more can happen", what); if (o != RETURNED) { OpResult r{o, task_code(t)}; must_return(r, what); } }
}
}

// ------------------------------------------------------------------ C20
SCENARIO("C20", c20_streams, 3) {
    mem_config(); vt_debug_disable_output(choose(4) != 0); net_config(); g_preempt = true; vt_socket_init(); u16 port = gen_port(); int nclients = 1 + (int)choose(3), backlog = (int)choose(4); vt_socket_t srv = -1;
    bool faults = choose(2); u64 mask = FM(F_SEND_PARTIAL) | FM(F_RECV_PARTIAL); if (faults && choose(2)) mask |= FM(F_SEND_ERR) | FM(F_RECV_ERR) | FM(F_EINTR) | FM(F_POLL);
    bool far = choose(3) == 2; const char *srv_ip = far ? "10.0.0.1" : choose(4) == 3 ? "127.0.0.5" : "127.0.0.1"; if (far) { net_set_host(inet_addr("10.0.0.1")); probe("two hosts"); }
    must_return(run_op([&] { srv = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, port, backlog); if (far) net_set_host(inet_addr("10.0.0.2")); }), "vt_socket_startup_server"); CHECK(srv >= 0, "no-server", "starting a server on a free port failed with %lld", (long long)srv);
    struct Pair { Flow up, down; size_t up_total, down_total; bool both; u16 cport = 0; bool up_ok = false, down_ok = false; bool matched = false; i64 pause = 0, pause2 = 0; }; std::vector<Pair> ps((size_t)nclients); std::vector<int> ids; size_t cap = g_net.window < 64 ? 40 : g_net.window < 1000 ? 600 : 200000;
    for (int i = 0; i < nclients; i++) { Pair &p = ps[i]; p.up.key = 2 * (u32)i + 1; p.down.key = 2 * (u32)i + 2; p.both = choose(2); p.up_total = choose(8) == 7 ? 0 : chunk_for(cap); p.down_total = chunk_for(cap); if (!p.both && choose(2)) p.up_total = 0; if (choose(10) == 9) { if (choose(2)) p.pause = range(1, 40000000); if (choose(2)) p.pause2 = range(1, 40000000); } }
    if (faults) { g_plan = Plan(); g_plan.mode = PLAN_RATE; g_plan.mask = mask; g_plan.num = 1; g_plan.den = 2u << choose(4); }
    // sends the whole message, in pieces, retrying failed calls as callers do; tells whether it got through
    auto send_all = [&](const char *who, Conn &c, Flow &f, size_t total) { int tries = 0; while (f.sent < total) { size_t n = std::min(gen_chunk(), total - (size_t)f.sent); int32_t r = judged_send(who, c, f, n, false); if (r < 0 && ++tries > 200) { g_plan = Plan(); } } return true; };
    auto recv_n = [&](const char *who, Conn &c, Flow &f, size_t total) { int tries = 0; while (f.got < total && !f.ended) { size_t n = std::min(gen_buf(), total - (size_t)f.got); int64_t to = choose(4) == 3 ? 100000 + (int64_t)choose(1000) : -1; int32_t r = judged_recv(who, c, f, n, to, false); if (r < 0 && ++tries > 200) g_plan = Plan(); } CHECK(f.got <= total, "wrong-bytes", "%s: more bytes arrived than were sent", who); CHECK(f.got == total, "lost-bytes", "%s: the stream ended after %llu of %zu bytes", who, (unsigned long long)f.got, total); };
    auto recv_end = [&](const char *who, Conn &c, Flow &f) { int tries = 0; while (!f.ended) { int64_t to = choose(4) == 3 ? 100000 + (int64_t)choose(1000) : -1; int32_t r = judged_recv(who, c, f, gen_buf(), to, false); if (r < 0 && ++tries > 200) g_plan = Plan(); } };
    for (int i = 0; i < nclients; i++) ids.push_back(spawn([&, i] {
        Pair &p = ps[i]; Conn c; if (p.pause) sleep_us(p.pause); c.fd = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, vt_socket_make_address((int16_t)port, srv_ip)); CHECK(c.fd >= 0, "no-connection", "connecting to a running server failed with %lld", (long long)c.fd); c.s = net_sock((int)c.fd); p.cport = c.s->lport; if (p.pause2) { sleep_us(p.pause2); probe("long silence"); }
        send_all("client", c, p.up, p.up_total);
        if (p.both) { recv_n("client", c, p.down, p.down_total); g_plan.mask &= ~FM(F_SOCKCLOSE); }
        else if (p.up_total == 0) recv_end("client", c, p.down);
        bool ok = vt_socket_close(c.fd); CHECK(ok, "close", "closing an open socket reported failure"); }));
    ids.push_back(spawn([&] {
        std::vector<int> hs;
        for (int k = 0; k < nclients;) {
            u32 h0 = task_hard(cur_task()); vt_socket_t fd = vt_socket_accept_client(srv); if (fd < 0) { CHECK(task_hard(cur_task()) != h0, "spurious-error", "accepting failed without a reason"); continue; }
            k++; SockP s = net_sock((int)fd); CHECK(s && s->connected, "no-connection", "vt_socket_accept_client returned something that is not a connection");
            ids.push_back(spawn([&, fd, s] {
                Conn c{fd, s}; Pair *p = nullptr; block_until([&] { for (auto &x : ps) if (x.cport == s->rport && s->rport) return true; return false; }); for (auto &x : ps) if (x.cport == s->rport) p = &x;
                CHECK(!p->matched, "no-connection", "one connection was accepted twice"); p->matched = true;
                if (p->both) { recv_n("server", c, p->up, p->up_total); send_all("server", c, p->down, p->down_total); recv_end("server", c, p->up); p->up_ok = p->down_ok = true; }
                else if (p->up_total == 0) { send_all("server", c, p->down, p->down_total); }
                else { recv_end("server", c, p->up); }
                bool ok = vt_socket_close(c.fd); CHECK(ok, "close", "closing an open socket reported failure"); }));
        } }));
    run_tasks(); g_plan = Plan(); no_hang(ids, "stream");
    for (auto &p : ps) {
        CHECK(p.matched, "no-connection", "a connection was never accepted");
        CHECK(p.up.got == p.up.sent, "lost-bytes", "%llu of %llu bytes sent by the client arrived before the orderly end", (unsigned long long)p.up.got, (unsigned long long)p.up.sent);
        if (p.both || p.up_total == 0) CHECK(p.down.got == p.down.sent, "lost-bytes", "%llu of %llu bytes sent by the server arrived before the orderly end", (unsigned long long)p.down.got, (unsigned long long)p.down.sent);
        probe(p.both ? "exchange" : p.up_total ? "upload until end" : "download until end"); if (p.up.sent + p.down.sent > 65536) probe("more than a window");
    }
    must_return(run_op([&] { vt_socket_close(srv); vt_socket_quit(); }), "vt_socket_close"); CHECK(net_open_sockets() == 0, "leak", "%d sockets are still open", net_open_sockets());
}
// single calls: statuses and counts under each fault, on sockets in every state
SCENARIO("C20", c20_calls, 2) {
    mem_config(); vt_debug_disable_output(choose(4) != 0); net_config(); if (g_net.window < 64) g_net.window = 64; g_net.lat_min = g_net.lat_max = 0; vt_socket_init(); u16 port = gen_port(); Conn a, b; vt_socket_t srv = -1; Flow ab, ba; ab.key = 5; ba.key = 6;
    must_return(run_op([&] { srv = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, port, 2); a.fd = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, loop_addr(port)); b.fd = vt_socket_accept_client(srv); a.s = net_sock((int)a.fd); b.s = net_sock((int)b.fd); CHECK(a.s && b.s, "no-connection", "no connection was made"); }), "connecting");
    int n = long_history(1 + (int)choose(20)); bool aclosed = false;
    for (int k = 0; k < n; k++) {
        bool fwd = choose(2) == 0; Conn &x = fwd ? a : b, &y = fwd ? b : a; Flow &f = fwd ? ab : ba; size_t room = g_net.window > y.s->rx.size() ? g_net.window - y.s->rx.size() : 0; u32 op = choose(5); arm(FM(F_SEND_ERR) | FM(F_SEND_PARTIAL) | FM(F_RECV_ERR) | FM(F_RECV_PARTIAL) | FM(F_EINTR) | FM(F_POLL), 2);
        if (op < 2 && room) { size_t m = 1 + choose((u32)std::min<size_t>(room, 9000)); if (choose(10) == 9) m = 0; must_return(run_op([&] { judged_send("send", x, f, m, false); }), "vt_socket_send"); probe("send"); }
        else if (op < 4 && !y.s->rx.empty()) { size_t m = gen_buf(); must_return(run_op([&] { judged_recv("receive", y, f, m, choose(3) == 2 ? (int64_t)choose(5) : -1, false); }), "vt_socket_receive"); probe("receive"); }
        else if (op == 4) { i64 t0 = g_now; must_return(run_op([&] { judged_recv("timed receive", y, f, gen_buf(), (int64_t)choose(20), false); }), "vt_socket_receive_timed"); (void)t0; probe("timed receive"); }
        disarm(); run_until_idle();
    }
    // calls on something that is not a connection
    vt_socket_t bad = choose(2) ? 900 : srv; char buf[16] = {0}; int32_t r1 = 0, r2 = 0; must_return(run_op([&] { r1 = vt_socket_send(bad, "abc", 3); r2 = vt_socket_receive(bad, buf, 16); }), "calls on a socket without connection");
    CHECK(r1 == VT_SOCKET_STATUS_ERROR_SEND && r2 == VT_SOCKET_STATUS_ERROR_RECEIVE, "wrong-status", "send and receive on a socket without connection returned %d and %d", r1, r2); (void)aclosed;
    bool okc = true; must_return(run_op([&] { okc = vt_socket_close(a.fd) && vt_socket_close(b.fd) && vt_socket_close(srv); }), "vt_socket_close"); CHECK(okc, "close", "closing open sockets reported failure");
}

// ------------------------------------------------------------------ C21
// a receive without time limit waits for its datagram, however long nothing comes
SCENARIO("C21", c21_waiting, 1) {
    mem_config(); vt_debug_disable_output(choose(4) != 0); g_net = NetCfg(); g_net.lat_max = (int)choose(3000); g_preempt = choose(2); vt_socket_init(); u16 port = gen_port(); vt_socket_t srv = -1, cl = -1; must_return(run_op([&] { srv = vt_socket_startup_server(VT_SOCKET_TYPE_UDP, port, 0); cl = vt_socket_startup_client(VT_SOCKET_TYPE_UDP, loop_addr(port)); }), "starting"); CHECK(srv >= 0 && cl >= 0, "no-server", "starting failed");
    int n = 1 + (int)choose(4); std::vector<std::pair<i64, size_t>> plan; for (int k = 0; k < n; k++) plan.push_back({choose(2) ? 0 : choose(3) ? range(1, 20000) : range(1000000, 90000000), choose(6) == 5 ? 0 : 1 + choose(2000)}); bool echo = choose(2); auto body = [](int k, size_t m) { std::string d(m, 0); for (size_t i = 0; i < m; i++) d[i] = pat((u32)k + 50, i); return d; };
    auto recv1 = [&](const char *who, vt_socket_t fd, int k, size_t m, u16 from_port) { char *b = (char *)mem_alloc(2100, false); struct VitaSocketAddress ad; ad.port = 1; ad.addr = 2; bool from = choose(2); int32_t r = from ? vt_socket_receive_from(fd, &ad, b, 2100) : vt_socket_receive(fd, b, 2100); CHECK(r == (int32_t)m && body(k, m).compare(0, m, b, (size_t)std::max(r, 0)) == 0, r < 0 ? "spurious-error" : "wrong-datagram", "%s: waiting for a datagram of %zu bytes returned %d", who, m, r); if (from) CHECK(ad.addr == inet_addr("127.0.0.1") && ad.port == from_port, "wrong-sender", "%s: the datagram was reported as from %08x:%u", who, ntohl(ad.addr), ntohs(ad.port)); mem_free(b); return ad; };
    u16 cport = net_sock((int)cl)->lport;
    int t1 = spawn([&] { for (int k = 0; k < n; k++) { recv1("server", srv, k, plan[k].second, cport); if (echo) { std::string d = body(k, plan[k].second); struct VitaSocketAddress ad; ad.addr = inet_addr("127.0.0.1"); ad.port = cport; if (choose(8) == 7) sleep_us(range(1, 70000000)); int32_t r = vt_socket_send_to(srv, ad, (char *)d.data(), d.size()); CHECK(r == (int32_t)d.size(), "spurious-error", "answering returned %d", r); } } });
    int t2 = spawn([&] { for (int k = 0; k < n; k++) { sleep_us(plan[k].first + (echo ? 0 : g_net.lat_max)); std::string d = body(k, plan[k].second); int32_t r = vt_socket_send(cl, (char *)d.data(), d.size()); CHECK(r == (int32_t)d.size(), "spurious-error", "sending returned %d", r); if (echo) recv1("client", cl, k, plan[k].second, htons(port)); } });
    run_tasks(); no_hang({t1, t2}, "waiting for a datagram"); for (auto &x : plan) if (x.first > 1000000) probe("long silence"); must_return(run_op([&] { vt_socket_close(srv); vt_socket_close(cl); }), "vt_socket_close");
}
SCENARIO("C21", c21_datagrams, 3) {
    mem_config(); vt_debug_disable_output(choose(4) != 0); net_config(); g_net.split = false; if (choose(2)) { g_net.drop = choose(20); g_net.dup = choose(20); g_net.reorder = choose(30); } vt_socket_init();
    static const char *ips[] = {"127.0.0.1", "10.0.0.1", "10.0.0.2", "192.168.1.77", "203.0.113.254"}; bool one_host = choose(3) == 0; u16 port = gen_port(); vt_socket_t srv = -1; struct Peer { vt_socket_t fd; u32 host; SockP s; bool client; const char *ip; u16 port; }; std::vector<Peer> ps; const char *sip = one_host ? ips[0] : ips[1]; u32 shost = one_host ? 0 : inet_addr(sip);
    net_set_host(shost); must_return(run_op([&] { srv = vt_socket_startup_server(VT_SOCKET_TYPE_UDP, port, 0); }), "vt_socket_startup_server"); CHECK(srv >= 0, "no-server", "starting a datagram server failed with %lld", (long long)srv);
    int np = 1 + (int)choose(3);
    for (int i = 0; i < np; i++) { Peer p; p.ip = one_host ? ips[0] : ips[2 + choose(3)]; p.host = one_host ? 0 : inet_addr(p.ip); p.client = choose(3) != 0; net_set_host(p.host); u16 q = port; while (!net_port_free(p.host, SOCK_DGRAM, htons(q)) || q == port) q = (u16)(20000 + choose(20000)); if (p.client) must_return(run_op([&] { p.fd = vt_socket_startup_client(VT_SOCKET_TYPE_UDP, vt_socket_make_address((int16_t)port, sip)); }), "vt_socket_startup_client"); else must_return(run_op([&] { p.fd = vt_socket_startup_server(VT_SOCKET_TYPE_UDP, q, 0); }), "vt_socket_startup_server"); CHECK(p.fd >= 0, "no-client", "starting a datagram client failed with %lld", (long long)p.fd); p.s = net_sock((int)p.fd); ps.push_back(p); }
    SockP ss = net_sock((int)srv);
    struct Sent { std::string data; u32 addr; u16 port; int copies; }; std::vector<Sent> to_srv; std::vector<std::vector<Sent>> to_peer((size_t)np); bool faults = choose(2); bool lossless = !g_net.drop && !g_net.dup; u32 serial = 0; size_t got_total = 0; bool peers_done = false;
    u64 mask = FM(F_SEND_ERR) | FM(F_RECV_ERR) | FM(F_EINTR) | FM(F_POLL); g_preempt = true;
    auto gen_payload = [&] { size_t n; switch (choose(6)) { case 0: n = choose(12); break; case 1: n = 1 + choose(200); break; case 2: n = 1400 + choose(200); break; case 3: n = 65500 + choose(8); break; case 4: n = 0; break; default: n = 1 + choose(3000); } std::string s(n, 0); u32 id = ++serial; for (size_t i = 0; i < n; i++) s[i] = pat(id, i); return s; };
    auto seen_as = [&](const Peer &p) { return one_host ? inet_addr("127.0.0.1") : p.host; };
    // one receive; returns 1 got a datagram, 0 nothing in time, -1 failed
    auto receive = [&](const char *who, vt_socket_t fd, std::vector<Sent> &sent, struct VitaSocketAddress &ad, std::string &out, bool need_from, int64_t to) {
        size_t n = 0; switch (choose(5)) { case 0: n = 65536; break; case 1: n = 1 + choose(16); break; case 2: n = 1 + choose(1500); break; case 3: n = 2048; break; default: n = 65507; } char *b = (char *)mem_alloc(n, false); memset(b, 0xC3, n); u32 h0 = task_hard(cur_task()); i64 t0 = g_now; ad.port = 0xabcd; ad.addr = 0x12345678; bool from = need_from || choose(2); SockP s = net_sock((int)fd); u64 popped0 = s->popped;
        int32_t r = to < 0 ? (from ? vt_socket_receive_from(fd, &ad, b, n) : vt_socket_receive(fd, b, n)) : (from ? vt_socket_receive_timed_from(fd, &ad, b, n, (uint32_t)to) : vt_socket_receive_timed(fd, b, n, (uint32_t)to)); bool hard = task_hard(cur_task()) != h0; CHECK(r <= (int64_t)n, "too-many", "%s: a receive into %zu bytes returned %d", who, n, r);
        if (r < 0) { CHECK(r == VT_SOCKET_STATUS_ERROR_RECEIVE || (to >= 0 && r == VT_SOCKET_STATUS_ERROR_POLL), "wrong-status", "%s: a receive returned %d", who, r); CHECK(hard || s->connected, "spurious-error", "%s: a receive failed without a reason", who); CHECK(ad.port == 0xabcd && ad.addr == 0x12345678, "address-touched", "%s: a failed receive changed the address", who); CHECK(s->popped == popped0, "lost-datagram", "%s: a receive that failed consumed a datagram", who); mem_free(b); return -1; }
        for (size_t i = (size_t)std::max(r, 0); i < n; i++) CHECK(b[i] == (char)0xC3, "buffer-touched", "%s: a receive that returned %d changed byte %zu of the buffer", who, r, i);
        out.assign(b, (size_t)std::max(r, 0)); u64 took = s->popped - popped0;
        if (r == 0 && took == 0) { CHECK(to >= 0 && g_now - t0 >= to * 1000, "invented-datagram", "%s: a receive returned 0 after %lld us although no datagram had come", who, (long long)(g_now - t0)); if (from) CHECK(ad.port == 0xabcd && ad.addr == 0x12345678, "address-touched", "%s: a receive that got nothing changed the address", who); mem_free(b); return 0; }
        // it must be the next one that arrived: whole, or cut to the buffer, with its sender
        CHECK(took == 1, "lost-datagram", "%s: one receive consumed %llu datagrams", who, (unsigned long long)took); const Dgram &d = s->last; size_t m = std::min(n, d.data.size()); CHECK(m == (size_t)r && d.data.compare(0, m, out) == 0, "wrong-datagram", "%s: received %d bytes (buffer %zu) where a datagram of %zu bytes had come: %s", who, r, n, d.data.size(), show(out, 40).c_str()); if (from) CHECK(d.addr == ad.addr && d.port == ad.port, "wrong-sender", "%s: a datagram of %d bytes sent from %08x:%u was reported as from %08x:%u", who, r, ntohl(d.addr), ntohs(d.port), ntohl(ad.addr), ntohs(ad.port));
        mem_free(b); bool found = false; for (auto &x : sent) if (x.data == d.data && x.addr == d.addr && x.port == d.port) found = true; CHECK(found, "invented-datagram", "%s: a datagram of %zu bytes came that nobody sent to it", who, d.data.size());
        if (r == 0) probe("empty datagram"); if (n == (size_t)r) probe("cut to the buffer"); got_total++; return 1; };
    auto send = [&](const char *who, vt_socket_t fd, bool connected, struct VitaSocketAddress to, const std::string &d, std::vector<Sent> &log, u32 addr, u16 prt) {
        char *b = (char *)mem_alloc(d.size() ? d.size() : 1, false); memcpy(b, d.data(), d.size()); u32 h0 = task_hard(cur_task()); SockP s = net_sock((int)fd); size_t before = log.size(); log.push_back({d, addr, prt, g_net.dup ? 2 : 1});
        int32_t r = connected ? vt_socket_send(fd, b, d.size()) : vt_socket_send_to(fd, to, b, d.size()); mem_free(b); bool hard = task_hard(cur_task()) != h0; log[before].port = s->lport;
        CHECK(r == (int32_t)d.size() || r == VT_SOCKET_STATUS_ERROR_SEND, "wrong-status", "%s: sending a datagram of %zu bytes returned %d", who, d.size(), r); if (r < 0) { CHECK(hard || d.size() > 65507 || s->connected, "spurious-error", "%s: sending a datagram failed without a reason", who); log[before].copies = 0; } else CHECK(d.size() <= 65507, "wrong-status", "%s: a datagram that is too long was reported as sent", who);
        return r >= 0; };
    std::vector<int> ids; size_t ok_to_srv = 0, got_srv = 0, replies = 0, got_replies = 0; int running = np; if (faults) { g_plan = Plan(); g_plan.mode = PLAN_RATE; g_plan.mask = mask; g_plan.num = 1; g_plan.den = 4u << choose(3); }
    for (int i = 0; i < np; i++) ids.push_back(spawn([&, i] {
        Peer &p = ps[i]; int k = 1 + (int)choose(5); size_t mine = 0;
        for (int j = 0; j < k; j++) {
            std::string d = gen_payload(); if (choose(12) == 11) d.resize(65508 + choose(100), 'L'); bool conn = p.client && choose(2);
            if (send("client", p.fd, conn, vt_socket_make_address((int16_t)port, sip), d, to_srv, seen_as(p), p.s->lport)) { ok_to_srv++; mine++; }
            if (choose(2)) { struct VitaSocketAddress ad; std::string out; int r = receive("client", p.fd, to_peer[i], ad, out, false, (int64_t)choose(40)); if (r == 1) got_replies++; }
            if (choose(3) == 2) sleep_us(range(1, 20000));
        }
        // collect the remaining replies
        for (int idle = 0; idle < 3;) { struct VitaSocketAddress ad; std::string out; int r = receive("client", p.fd, to_peer[i], ad, out, choose(2), 200); if (r == 1) { got_replies++; } else idle++; }
        running--; }));
    ids.push_back(spawn([&] {
        int idle = 0;
        while (running > 0 || idle < 3) {
            struct VitaSocketAddress ad; std::string out; bool known = choose(3) != 0; int r = receive("server", srv, to_srv, ad, out, known, 30 + (int64_t)choose(60)); if (r != 1) { idle++; continue; }
            idle = 0; got_srv++;
            if (known && choose(2)) { // a reply to the reported address must reach the sender
                int who = -1; for (int i = 0; i < np; i++) if (ps[i].s->lport == ad.port && seen_as(ps[i]) == ad.addr) who = i; CHECK(who >= 0, "wrong-sender", "the reported address belongs to nobody"); std::string d = gen_payload(); u32 me = one_host ? inet_addr("127.0.0.1") : shost; if (send("server", srv, false, ad, d, to_peer[who], me, htons(port))) replies++; probe("reply"); }
        } }));
    run_tasks(); g_plan = Plan(); no_hang(ids, "datagrams"); (void)peers_done;
    if (lossless && !faults) { CHECK(got_srv == ok_to_srv, "lost-datagram", "%zu of %zu datagrams arrived on a network that loses nothing", got_srv, ok_to_srv); CHECK(got_replies == replies, "lost-datagram", "%zu of %zu replies to the reported addresses reached their senders", got_replies, replies); probe("everything arrived"); }
    g_net = NetCfg(); bool okc = true; must_return(run_op([&] { for (auto &p : ps) okc &= vt_socket_close(p.fd); okc &= vt_socket_close(srv); }), "vt_socket_close"); CHECK(okc && net_open_sockets() == 0, "leak", "%d sockets are still open", net_open_sockets());
}

// ------------------------------------------------------------------ C22
SCENARIO("C22", c22_timed, 4) {
    mem_config(); vt_debug_disable_output(choose(4) != 0); g_net = NetCfg(); vt_socket_init(); g_preempt = choose(2); bool udp = choose(2); u16 port = gen_port(); vt_socket_t srv = -1, a = -1, b = -1;   // a sends, b waits
    must_return(run_op([&] { srv = vt_socket_startup_server(udp ? VT_SOCKET_TYPE_UDP : VT_SOCKET_TYPE_TCP, port, 4); a = vt_socket_startup_client(udp ? VT_SOCKET_TYPE_UDP : VT_SOCKET_TYPE_TCP, loop_addr(port)); b = udp ? srv : vt_socket_accept_client(srv); }), "connecting"); CHECK(a >= 0 && b >= 0, "no-connection", "no connection was made"); bool back = udp && choose(2); if (back) std::swap(a, b);   // the connected end of a datagram pair waits
    SockP sa = net_sock((int)a), sb = net_sock((int)b);
    int n = long_history(1 + (int)choose(6)); bool over = false;
    for (int k = 0; k < n && !over; k++) {
        uint32_t to; switch (choose(7)) { case 0: to = 0; break; case 1: to = 1; break; case 2: to = 1 + choose(100); break; case 3: to = 1 + choose(5000); break; case 4: to = 1000 * (1 + choose(4000)); break; case 5: to = UINT32_MAX; break; default: { static const std::vector<uint32_t> big = {0x7fffffffu, 0x80000000u, 0x80000001u, 0xc0000000u, 0xfffffffeu}; to = choose(2) ? pick(big) - choose(3) : 100000 + choose(1000000); } }
        bool inf = to == UINT32_MAX; i64 lim = inf ? (choose(3) == 2 ? 60ll * 86400 * 1000000 : 3000000) : (i64)to * 1000; u32 what = choose(udp ? back ? 6 : 4 : 6); if (udp && what == 4) what = 5; bool poll_fault = choose(6) == 5, intr = choose(6) == 5; size_t pre = choose(3) == 2 ? 1 + choose(100) : 0;   // what: 0 nothing, 1-3 data, 4 end, 5 reset (datagrams: refused)
        if (inf && what == 0) what = 1; i64 when = lim > 0 ? (i64)(mix(choose(65536)) % (u64)(lim + lim / 4 + 1)) : (i64)choose(1000); if (choose(6) == 5) when = lim; if (choose(8) == 7) when = std::max<i64>(lim - 1 - (i64)choose(900), 0); size_t bytes = 1 + choose(500);
        auto put = [&](size_t m) { std::string d(m, 'd'); if (udp) { sb->dq.push_back({d, inet_addr("127.0.0.1"), sa->lport}); } else sb->rx += d; };
        if (pre) put(pre);
        i64 start = g_now, arrive = -1; if (what >= 1 && !pre) { i64 at = start + when; arrive = at; at_time(at, [&, what, bytes] { if (what <= 3) put(bytes); else if (what == 4) sb->rx_fin = true; else { if (!udp) sb->reset = true; sb->err = udp ? ECONNREFUSED : ECONNRESET; note_fault(F_NET_RST); } ev("arrival %u", what); }); }
        ev("timed %s timeout %u arrival %u at %lld pre %zu", udp ? "udp" : "tcp", to, what, (long long)when, pre); u64 m = 0; if (poll_fault) m |= FM(F_POLL); if (intr) m |= FM(F_EINTR); bool rf = choose(8) == 7; if (rf) m |= FM(F_RECV_ERR); if (m) arm_one(m, 0); char *buf = (char *)mem_alloc(1000, false); int32_t r = 0; i64 t1 = 0; struct VitaSocketAddress ad = {1, 2}; bool from = choose(2); start = g_now;
        OpResult o = run_op([&] { r = from ? vt_socket_receive_timed_from(b, &ad, buf, 1000, to) : vt_socket_receive_timed(b, buf, 1000, to); t1 = g_now; }); u64 inj = g_op_faults; disarm(); CHECK(o.out != BLOCKED, "too-late", "a timed receive with timeout %u ms never returned", to); must_return(o, "vt_socket_receive_timed"); mem_free(buf); i64 took = t1 - start; bool pf = inj & FM(F_POLL), ei = inj & FM(F_EINTR), re = inj & FM(F_RECV_ERR);
        i64 due = pre ? 0 : arrive >= 0 ? std::max<i64>(arrive - start, 0) : -1; bool early_enough = due >= 0 && (inf || due < lim), boundary = due >= 0 && !inf && due >= lim && due <= lim + SLACK;
        if (pf) { CHECK(r == VT_SOCKET_STATUS_ERROR_POLL, "wrong-status", "a timed receive whose wait failed returned %d", r); probe("failed wait"); }
        else if (ei && r < 0) { CHECK(r == VT_SOCKET_STATUS_ERROR_POLL || r == VT_SOCKET_STATUS_ERROR_RECEIVE, "wrong-status", "an interrupted timed receive returned %d", r); probe("interrupted wait"); }
        else if (re && r < 0) { CHECK(r == VT_SOCKET_STATUS_ERROR_RECEIVE, "wrong-status", "a timed receive whose receive failed returned %d", r); probe("failed receive"); }
        else if (early_enough || boundary) {
            bool as_timeout = boundary && r == 0 && took >= lim;
            if (!as_timeout) {
                CHECK(took >= due, "too-early", "a timed receive returned %d after %lld us, nothing came before %lld us", r, (long long)took, (long long)due); CHECK(took <= due + SLACK, "too-late", "a timed receive with timeout %u ms returned %lld us after the arrival", to, (long long)(took - due)); u32 w = pre ? 1 : what;
                if (w <= 3) CHECK(r == (int32_t)(pre ? pre : bytes), "wrong-result", "a timed receive returned %d when %zu bytes were there", r, pre ? pre : bytes); else if (w == 4) CHECK(r == 0, "wrong-result", "a timed receive returned %d at the end of the stream", r); else CHECK(r == VT_SOCKET_STATUS_ERROR_RECEIVE, "wrong-status", "a timed receive on a broken connection returned %d", r);
                if (from && udp && w <= 3) CHECK(ad.addr == inet_addr("127.0.0.1") && ad.port == sa->lport, "wrong-sender", "a timed receive reported a wrong sender");
            }
            probe(pre ? "already there" : "arrived in time"); if (inf) probe("no limit");
        } else { CHECK(r == 0, "wrong-result", "a timed receive with nothing arriving returned %d", r); CHECK(took >= lim, "too-early", "a timed receive with timeout %u ms returned after %lld us with nothing there", to, (long long)took); CHECK(took <= lim + SLACK, "too-late", "a timed receive with timeout %u ms took %lld us", to, (long long)took); probe(to == 0 ? "zero timeout" : "timed out"); }
        run_until_idle(); sb->rx.clear(); sb->dq.clear(); if (udp) sb->err = 0; if (sb->rx_fin || sb->reset) over = true;
    }
    must_return(run_op([&] { vt_socket_close(a); vt_socket_close(b); if (!udp) vt_socket_close(srv); }), "vt_socket_close");
    if (choose(4) == 3) { // a socket that is closed: an error at once
        char *buf = (char *)mem_alloc(16, false); struct VitaSocketAddress ad; int32_t r = 0; i64 t0 = g_now, t1 = 0; uint32_t to = choose(3) ? choose(5000) : UINT32_MAX; bool from = choose(2);
        OpResult o = run_op([&] { r = from ? vt_socket_receive_timed_from(b, &ad, buf, 16, to) : vt_socket_receive_timed(b, buf, 16, to); t1 = g_now; }); CHECK(o.out != BLOCKED, "too-late", "a timed receive on a closed socket never returned"); must_return(o, "vt_socket_receive_timed");
        CHECK(r == VT_SOCKET_STATUS_ERROR_RECEIVE || r == VT_SOCKET_STATUS_ERROR_POLL, "wrong-status", "a timed receive on a closed socket returned %d", r); CHECK(t1 - t0 <= SLACK, "too-late", "a timed receive on a closed socket took %lld us", (long long)(t1 - t0)); mem_free(buf); probe("closed socket");
    }
}
SCENARIO("C22", c22_poll, 2) {
    mem_config(); vt_debug_disable_output(choose(4) != 0); g_net = NetCfg(); vt_socket_init(); g_preempt = choose(2); u16 port = 7000; int nc = choose(120) == 119 ? 60 + (int)choose(200) : 1 + (int)choose(4); if (nc > 50) probe("many sockets"); if (choose(12) == 11) stdin_closed(); vt_socket_t srv = -1; struct E { vt_socket_t a = -1, b = -1; SockP sb; bool udp; i64 at = -1; int what = 0; bool listen = false, out = false, in = true; i64 out_at = -1; bool due(i64 t) const { return (what && at <= t && (in || what == 3)) || (out_at >= 0 && out_at <= t); } i64 first() const { i64 f = -1; if (what && (in || what == 3)) f = at; if (out_at >= 0 && (f < 0 || out_at < f)) f = out_at; return f; } }; std::vector<E> es;
    must_return(run_op([&] { srv = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, port, 10); }), "vt_socket_startup_server");
    for (int i = 0; i < nc; i++) { E e; e.udp = choose(3) == 2; must_return(run_op([&] { if (e.udp) { e.b = vt_socket_startup_server(VT_SOCKET_TYPE_UDP, 8000 + i, 0); e.a = vt_socket_startup_client(VT_SOCKET_TYPE_UDP, loop_addr((u16)(8000 + i))); } else { e.a = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, loop_addr(port)); e.b = vt_socket_accept_client(srv); } }), "connecting"); e.sb = net_sock((int)e.b); es.push_back(e); }
    uint32_t to = choose(4) == 0 ? 0 : choose(4) == 0 ? UINT32_MAX : choose(20) == 19 ? 0x80000000u + choose(0x7ffffff0u) : 1 + choose(3000); i64 lim = to == UINT32_MAX ? (choose(3) == 2 ? 60ll * 86400 * 1000000 : 2000000) : (i64)to * 1000; bool any = false;
    if (choose(2)) { E e; e.b = srv; e.sb = net_sock((int)srv); e.listen = true; e.udp = false; es.push_back(e); }
    i64 start = g_now;
    for (size_t i = 0; i < es.size(); i++) { E &e = es[i]; e.what = (int)choose(e.udp || e.listen ? 2 : 4); if (to == UINT32_MAX && i == 0 && !e.what) e.what = 1; if (!e.what) continue; i64 d = choose(3) == 0 ? 0 : (i64)(mix(choose(65536)) % (u64)(lim + lim / 4 + 1)); e.at = d; any = true;
        auto ready = [&es, i] { E &x = es[i]; if (x.listen) { SockP q = std::make_shared<Sock>(); q->type = SOCK_STREAM; q->connected = true; x.sb->acceptq.push_back(q); } else if (x.what == 1) { if (x.udp) x.sb->dq.push_back({"data", inet_addr("127.0.0.1"), 99}); else x.sb->rx += "data"; } else if (x.what == 2) x.sb->rx_fin = true; else { x.sb->reset = true; x.sb->err = ECONNRESET; note_fault(F_NET_RST); } ev("ready %zu", i); }; if (d == 0) ready(); else at_time(start + d, ready); }
    // interest in room for sending: at once, or once the peer has read (a reset also ends the wait, whatever the interest)
    if (choose(4) == 3) for (size_t i = 0; i < es.size(); i++) { E &e = es[i]; if (e.listen || choose(3)) continue; e.out = true; e.in = choose(2); SockP sa = net_sock((int)e.a); if (e.udp || !choose(4)) { e.out_at = 0; probe("room for sending"); continue; } sa->rx.assign(g_net.window, 'x'); i64 d = 1 + (i64)(mix(choose(65536)) % (u64)(lim + lim / 4 + 1)); if (to == UINT32_MAX || choose(3)) { e.out_at = d; at_time(start + d, [sa] { sa->rx.clear(); ev("room again"); }); } if (e.what == 3 && (e.out_at < 0 || e.at < e.out_at)) e.out_at = e.at; probe("no room for sending"); }
    struct pollfd *pf = (struct pollfd *)mem_alloc(sizeof(struct pollfd) * es.size(), false); for (size_t i = 0; i < es.size(); i++) { pf[i].fd = (int)es[i].b; pf[i].events = (short)((es[i].in ? POLLIN : 0) | (es[i].out ? POLLOUT : 0)); pf[i].revents = 0x7f; } bool pfault = choose(8) == 7; if (pfault) arm_one(FM(F_POLL), 0);
    int32_t r = 0; i64 t1 = 0; start = g_now; OpResult o = run_op([&] { r = vt_socket_poll(pf, es.size(), to); t1 = g_now; }); bool inj = g_op_faults & FM(F_POLL); disarm(); CHECK(o.out != BLOCKED, "too-late", "a poll with timeout %u ms never returned", to); must_return(o, "vt_socket_poll"); i64 took = t1 - start, first = -1; for (auto &e : es) if (e.first() >= 0 && (first < 0 || e.first() < first)) first = e.first(); (void)any;
    if (inj) { CHECK(r == VT_SOCKET_STATUS_ERROR_POLL, "wrong-status", "a failed poll returned %d", r); probe("failed poll"); }
    else {
        int c = 0; for (size_t i = 0; i < es.size(); i++) { E &e = es[i]; bool now = e.due(std::max<i64>(took - SLACK, 0)), maybe = e.due(took + SLACK); bool rd = pf[i].revents != 0; CHECK((pf[i].revents & (POLLIN | POLLOUT) & ~pf[i].events) == 0, "wrong-ready", "poll reported of socket %zu what was not asked for", i); if (e.out_at >= 0 && e.out_at <= std::max<i64>(took - SLACK, 0) && !(e.what == 3 && e.at <= took)) CHECK(pf[i].revents & POLLOUT, "wrong-ready", "poll did not report that socket %zu can send", i); if ((pf[i].revents & POLLIN) && e.in) CHECK(e.what && e.at <= took + SLACK, "wrong-ready", "poll reported socket %zu readable, which it is not", i); if (pf[i].revents) c++; if (rd) CHECK(maybe, "wrong-ready", "poll reported socket %zu ready, which it is not", i); else CHECK(!now, "wrong-ready", "poll did not report socket %zu, which is ready", i); }
        CHECK(r == c, "wrong-result", "poll returned %d with %d sockets marked ready", r, c);
        if (first >= 0 && (to == UINT32_MAX || first < lim)) { CHECK(took >= first && took <= first + SLACK, took < first ? "too-early" : "too-late", "poll returned after %lld us, the first socket became ready after %lld us", (long long)took, (long long)first); CHECK(r >= 1, "wrong-result", "poll returned %d with a socket ready", r); probe("ready"); }
        else if (!(first >= 0 && first <= lim + SLACK && r > 0)) { CHECK(r == 0, "wrong-result", "poll returned %d with nothing ready", r); CHECK(took >= lim && took <= lim + SLACK, took < lim ? "too-early" : "too-late", "poll with timeout %u ms took %lld us", to, (long long)took); probe("timed out"); }
    }
    mem_free(pf); run_until_idle();
}

// ------------------------------------------------------------------ C23
SCENARIO("C23", c23_startup, 4) {
    mem_config(); if (choose(8) == 7) stdin_closed(); vt_debug_disable_output(choose(4) != 0); g_net = NetCfg(); bool io = false, qo = false; must_return(run_op([&] { io = vt_socket_init(); }), "vt_socket_init"); CHECK(io, "init", "vt_socket_init failed"); g_net.lat_max = (int)choose(3) * 1000; struct Open { vt_socket_t fd; int type; bool server; u16 port; }; std::vector<Open> open; static const std::vector<const char *> hosts = {"127.0.0.1", "10.1.2.3", "192.168.0.1"}; int n = 1 + (int)choose(14); u16 base = gen_port(); if (base < 10) base = 10; u64 M = FM(F_SOCKET) | FM(F_SOCKOPT) | FM(F_BIND) | FM(F_LISTEN) | FM(F_CONNECT) | FM(F_SOCKCLOSE) | FM(F_ACCEPT);
    auto tcp_server = [&](u16 p) { for (auto &x : open) if (x.server && x.type == VT_SOCKET_TYPE_TCP && x.port == p) return true; return false; };
    auto queued = [&](u16 p) -> int { for (auto &x : open) if (x.server && x.type == VT_SOCKET_TYPE_TCP && x.port == p) return (int)net_sock((int)x.fd)->acceptq.size(); return 0; };
    for (int k = 0; k < n; k++) {
        int before = net_open_sockets(); u32 op = choose(7); u16 port = (u16)(base - choose(3)); enum VitaSocketType ty = choose(2) ? VT_SOCKET_TYPE_TCP : VT_SOCKET_TYPE_UDP; vt_socket_t fd = -100; g_bad_close = 0; arm(M, 4); SockP s;
        if (op < 2) {
            int bl = (int)choose(5); bool zero = choose(12) == 11; bool busy = !zero && !net_port_free(0, ty, htons(port)); bool busy_conn = false; for (auto &q : net_all()) if (!q->closed && q->bound && q->lport == htons(port) && q->type == ty && !(q->connected && ty == SOCK_STREAM)) busy_conn = true;
            OpResult r = run_op([&] { fd = vt_socket_startup_server(ty, zero ? 0 : port, bl); }); u64 f = g_op_faults; disarm(); must_return(r, "vt_socket_startup_server"); ev("server %d port %u = %lld", (int)ty, port, (long long)fd);
            vt_socket_t want = f & FM(F_SOCKET) ? VT_SOCKET_STATUS_INVALID : f & FM(F_SOCKOPT) ? VT_SOCKET_STATUS_ERROR_OPTIONS : (f & FM(F_BIND)) ? VT_SOCKET_STATUS_ERROR_BIND : (f & FM(F_LISTEN)) ? VT_SOCKET_STATUS_ERROR_LISTEN : 0;
            if (want) CHECK(fd == want, "wrong-status", "starting a server returned %lld where the failing step calls for %lld", (long long)fd, (long long)want);
            else if (busy && fd < 0) { CHECK(busy_conn, "spurious-error", "the port is only used by established connections, but starting a server on it failed with %lld", (long long)fd); CHECK(fd == VT_SOCKET_STATUS_ERROR_BIND || fd == VT_SOCKET_STATUS_ERROR_LISTEN, "wrong-status", "starting a server on a port in use returned %lld", (long long)fd); probe("port in use"); }
            else { CHECK(fd >= 0, "spurious-error", "starting a server on a free port failed with %lld", (long long)fd); s = net_sock((int)fd); CHECK(s && s->type == (int)ty, "wrong-socket", "vt_socket_startup_server returned no socket of the wanted type"); CHECK(s->bound && s->laddr == 0, "wrong-socket", "the server is not bound to all interfaces"); if (!zero) CHECK(s->lport == htons(port), "wrong-socket", "the server is bound to port %u instead of %u", ntohs(s->lport), port); CHECK(s->listening == (ty == VT_SOCKET_TYPE_TCP), "wrong-socket", "a %s server is%s listening", ty == VT_SOCKET_TYPE_TCP ? "stream" : "datagram", s->listening ? "" : " not"); if (s->listening) CHECK(s->backlog == bl, "wrong-socket", "the queue has %d places instead of %d", s->backlog, bl); open.push_back({fd, ty, true, ntohs(s->lport)}); probe(ty == VT_SOCKET_TYPE_TCP ? "tcp server" : "udp server"); }
        } else if (op < 4) {
            const char *ip = pick(hosts); bool local = !strcmp(ip, "127.0.0.1"), there = local && tcp_server(port); if (there && queued(port) > 0) { disarm(); continue; } struct VitaSocketAddress ad; OpResult r = run_op([&] { ad = vt_socket_make_address((int16_t)port, ip); fd = vt_socket_startup_client(ty, ad); }); u64 f = g_op_faults; disarm(); must_return(r, "vt_socket_startup_client"); ev("client %d %s:%u = %lld", (int)ty, ip, port, (long long)fd); CHECK(ad.port == htons(port) && ad.addr == inet_addr(ip), "wrong-address", "vt_socket_make_address(%u, %s) gave %08x:%u", port, ip, ntohl(ad.addr), ntohs(ad.port));
            if (f & FM(F_SOCKET)) CHECK(fd == VT_SOCKET_STATUS_INVALID, "wrong-status", "starting a client returned %lld when no socket could be made", (long long)fd);
            else if (f & FM(F_SOCKOPT)) CHECK(fd == VT_SOCKET_STATUS_ERROR_OPTIONS || fd >= 0, "wrong-status", "starting a client returned %lld when setting options failed", (long long)fd);
            else if ((f & FM(F_CONNECT)) && fd < 0) CHECK(fd == VT_SOCKET_STATUS_ERROR_CONNECT, "wrong-status", "starting a client returned %lld when connecting failed", (long long)fd);
            else if (ty == VT_SOCKET_TYPE_TCP && !there) { CHECK(fd == VT_SOCKET_STATUS_ERROR_CONNECT, "wrong-status", "starting a client returned %lld with nobody listening", (long long)fd); probe("refused"); }
            else CHECK(fd >= 0, "spurious-error", "starting a client failed with %lld", (long long)fd);
            if (fd >= 0) { s = net_sock((int)fd); CHECK(s && s->type == (int)ty && s->connected && s->rport == htons(port) && s->raddr == inet_addr(ip), "wrong-socket", "the client is not connected to %s:%u", ip, port); open.push_back({fd, ty, false, port}); probe(ty == VT_SOCKET_TYPE_TCP ? "tcp client" : "udp client"); }
        } else if (op == 4) {
            disarm(); for (auto &x : open) if (x.server && x.type == VT_SOCKET_TYPE_TCP && !net_sock((int)x.fd)->acceptq.empty()) { arm(FM(F_ACCEPT), 1); OpResult r = run_op([&] { fd = vt_socket_accept_client(x.fd); }); bool f = g_op_faults & FM(F_ACCEPT); disarm(); must_return(r, "vt_socket_accept_client"); if (fd < 0) { CHECK(f && fd == VT_SOCKET_STATUS_INVALID, "wrong-status", "accepting a waiting connection returned %lld", (long long)fd); probe("accept failed"); } else { s = net_sock((int)fd); CHECK(s && s->connected && s->lport == htons(x.port), "wrong-socket", "vt_socket_accept_client returned no connection of this server"); open.push_back({fd, VT_SOCKET_TYPE_TCP, false, x.port}); probe("accepted"); } break; }
        } else if (op == 5 && !open.empty()) {
            size_t i = choose((u32)open.size()); Open x = open[i]; bool ok = false; OpResult r = run_op([&] { ok = vt_socket_close(x.fd); }); bool f = g_op_faults & FM(F_SOCKCLOSE); disarm(); must_return(r, "vt_socket_close"); CHECK(ok == !f, "wrong-status", "vt_socket_close returned %s when closing %s", ok ? "true" : "false", f ? "failed" : "succeeded"); CHECK(!net_sock((int)x.fd), "leak", "the socket is still open after vt_socket_close"); open.erase(open.begin() + i); probe(f ? "close failed" : "closed"); run_until_idle(); continue;
        } else { bool ok = true; OpResult r = run_op([&] { ok = vt_socket_close(choose(2) ? 777 : -1); }); disarm(); must_return(r, "vt_socket_close"); CHECK(!ok, "wrong-status", "closing something that is no socket reported success"); continue; }
        disarm(); CHECK(g_bad_close == 0, "bad-close", "a call closed something that was not open"); int now = net_open_sockets(); CHECK(now == before + (fd >= 0 ? 1 : 0), "leak", "the call returned %lld and left %d sockets more open than before", (long long)fd, now - before); if (fd < 0 && (op < 4)) probe("startup failed"); run_until_idle();
        for (auto &x : open) CHECK(net_sock((int)x.fd), "bad-close", "a call closed a socket it did not open");
    }
    while (!open.empty()) { Open x = open.back(); open.pop_back(); bool ok = false; must_return(run_op([&] { ok = vt_socket_close(x.fd); }), "vt_socket_close"); CHECK(ok, "wrong-status", "vt_socket_close failed on an open socket"); }
    must_return(run_op([&] { qo = vt_socket_quit(); }), "vt_socket_quit"); CHECK(qo, "init", "vt_socket_quit failed"); CHECK(net_open_sockets() == 0, "leak", "%d sockets are still open", net_open_sockets());
}
// a server can be started again at once after it was stopped with connections open or just closed
SCENARIO("C23", c23_restart, 1) {
    mem_config(); vt_debug_disable_output(true); g_net = NetCfg(); g_net.lat_max = (int)choose(3000); vt_socket_init(); u16 port = gen_port(); int rounds = 1 + (int)choose(4);
    for (int k = 0; k < rounds; k++) {
        vt_socket_t srv = -1; must_return(run_op([&] { srv = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, port, 3); }), "vt_socket_startup_server"); CHECK(srv >= 0, k ? "no-restart" : "no-server", "%s failed with %lld", k ? "restarting a server on its port" : "starting a server", (long long)srv); int nc = (int)choose(3); bool srv_first = choose(2), ok = true; std::vector<vt_socket_t> cs, as;
        for (int i = 0; i < nc; i++) { vt_socket_t c = -1, a = -1; int t1 = spawn([&] { c = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, loop_addr(port)); }), t2 = spawn([&] { a = vt_socket_accept_client(srv); }); run_tasks(); CHECK(task_outcome(t1) == RETURNED && task_outcome(t2) == RETURNED && c >= 0 && a >= 0, "not-working", "a client could not be served (%lld, %lld)", (long long)c, (long long)a); char buf[8] = {0}; int32_t r = 0; must_return(run_op([&] { ok &= vt_socket_send(c, "ping", 4) == 4; r = vt_socket_receive(a, buf, 8); }), "exchanging"); CHECK(ok && r == 4 && !memcmp(buf, "ping", 4), "not-working", "a message did not get through"); cs.push_back(c); as.push_back(a); }
        must_return(run_op([&] { if (srv_first) { for (auto a : as) vt_socket_close(a); vt_socket_close(srv); for (auto c : cs) vt_socket_close(c); } else { for (auto c : cs) vt_socket_close(c); for (auto a : as) vt_socket_close(a); vt_socket_close(srv); } }), "vt_socket_close"); run_until_idle(); probe(nc ? "restart after connections" : "restart"); CHECK(net_open_sockets() == 0, "leak", "sockets are still open");
    }
}

// ------------------------------------------------------------------ C24
static size_t survivor_send() { return choose(12) != 11 ? 1 + choose(600) : 601 + mix(choose(65536)) % (choose(3) == 2 ? 150000 : 20000); }
SCENARIO("C24", c24_vanishing_peer, 4) {
    mem_config(); vt_debug_disable_output(choose(4) != 0); net_config(); if (g_net.window < 7) g_net.window = 7; g_preempt = choose(2); vt_socket_init(); u16 port = gen_port(); Conn a, b; vt_socket_t srv = -1; Flow ab, ba; ab.key = 11; ba.key = 12; bool swap = choose(2);
    int t1 = spawn([&] { srv = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, port, 2); }); run_tasks(); t1 = spawn([&] { a.fd = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, loop_addr(port)); }); int t2 = spawn([&] { b.fd = vt_socket_accept_client(srv); }); run_tasks(); no_hang({t1, t2}, "connecting"); a.s = net_sock((int)a.fd); b.s = net_sock((int)b.fd); CHECK(a.s && b.s, "no-connection", "no connection was made"); if (swap) std::swap(a, b);
    // a is the observed side; b is the peer that goes away
    u32 how = choose(5); i64 when = range(0, 1 + 4 * g_net.lat_max + (i64)choose(3000)); bool gone = false; i64 gone_at = 0; size_t b_sends = choose(4) ? choose(3000) : 0; u32 work = choose(4); bool stop = false; if (how != 1 && how != 4) b_sends = std::min(b_sends, g_net.window); 
    auto vanish = [&](const char *w) { if (gone) return; gone = true; gone_at = g_now; note_fault(how == 1 ? F_NET_RST : F_PEER_CLOSE); ev("peer goes away: %s", w); };
    if (how == 4) at_time(g_now + when, [&] { vanish("killed"); net_kill_sock((int)b.fd); });
    if (how == 1) at_time(g_now + when, [&] { vanish("reset"); net_inject_rst(b.s); });
    // the peer: sends a little, reads a little or not at all, then closes, is killed, or is cut off by a reset
    int peer = spawn([&] {
        u64 sent = 0; std::string buf; while (sent < b_sends && !b.s->reset && !gone) { size_t m = std::min<size_t>(1 + choose(400), b_sends - sent); int32_t r = judged_send("peer", b, ba, m, true); if (r <= 0) break; sent += (u64)r; if (choose(3) == 2) sleep_us(range(1, 2000)); }
        if (how == 2 || how == 3) { for (int i = 0; i < 3 && !b.s->reset; i++) judged_recv("peer", b, ab, gen_buf(), (int64_t)choose(5), true); }
        if (how != 1 && how != 4) { if (choose(2)) sleep_us(when); if (!b.s->reset) vanish("close"); vt_socket_close(b.fd); } });
    int me = spawn([&] {
        int sends = 0, after = 0; i64 settle = 4ll * g_net.lat_max + 50000; bool saw_error = false;
        for (int i = 0; i < 200; i++) {
            bool send_now = work == 0 ? true : work == 1 ? false : choose(2);
            if (send_now) { int32_t r = judged_send("survivor", a, ab, survivor_send(), true); sends++; if (r < 0) { CHECK(gone || a.s->reset, "spurious-error", "a send failed while the peer was there"); saw_error = true; } }
            else { int32_t r = judged_recv("survivor", a, ba, gen_buf(), work == 3 ? (int64_t)choose(20) : gone || b_sends > ba.got ? -1 : 5, true); if (r < 0) CHECK(gone || a.s->reset, "spurious-error", "a receive failed while the peer was there"); }
            if (choose(3) == 2) sleep_us(range(1, 3000));
            if (gone && g_now > gone_at + settle && ++after > 6) break;
        }
        // the peer is gone: once the news had time to travel, sends fail and receives end
        block_until([&] { return gone; }, g_now + 5000000); if (!gone) { stop = true; return; }
        sleep_us(settle); int32_t r = 0; int k = 0; for (; k < 12; k++) { r = judged_send("survivor", a, ab, choose(4) ? 1 + choose(5) : survivor_send(), true); if (r == VT_SOCKET_STATUS_ERROR_SEND) break; sleep_us(settle); }
        CHECK(r == VT_SOCKET_STATUS_ERROR_SEND, "no-error", "%d sends after the peer had gone still reported success", k); saw_error = true; probe("send fails");
        r = 1; for (k = 0; k < 4000 && r > 0; k++) r = judged_recv("survivor", a, ba, gen_buf(), -1, true); CHECK(r <= 0, "no-end", "receives never end after the peer had gone"); r = judged_recv("survivor", a, ba, 100, choose(2) ? -1 : 10, true); CHECK(r <= 0, "no-end", "data after the end"); probe("receive ends"); stop = true; (void)sends; (void)saw_error; });
    run_tasks(); Outcome om = task_outcome(me), op = task_outcome(peer);
    CHECK(om != SIGNALED && op != SIGNALED, "killed-by-signal", "a broken connection killed the process with signal %d", om == SIGNALED ? task_code(me) : task_code(peer)); CHECK(om != BLOCKED, "stuck", "the surviving side waits for ever"); must_return({om, task_code(me)}, "using a connection whose peer goes away"); if (op != BLOCKED) must_return({op, task_code(peer)}, "the peer");
    CHECK(ba.got <= ba.sent, "wrong-bytes", "more bytes were received than sent"); static const char *hn[] = {"peer closes", "connection reset", "peer closes after reading", "peer closes with unread data", "peer dies while sending"}; probe(hn[how]);
    must_return(run_op([&] { vt_socket_close(a.fd); vt_socket_close(srv); }), "vt_socket_close");
}
// datagram sockets: an unreachable peer is an error status, never a dead process
SCENARIO("C24", c24_datagram_peer, 1) {
    mem_config(); vt_debug_disable_output(true); g_net = NetCfg(); vt_socket_init(); u16 port = gen_port(); vt_socket_t c = -1, s = -1; bool had = choose(2); must_return(run_op([&] { if (had) s = vt_socket_startup_server(VT_SOCKET_TYPE_UDP, port, 0); c = vt_socket_startup_client(VT_SOCKET_TYPE_UDP, loop_addr(port)); }), "starting"); if (c < 0) return; if (had) { must_return(run_op([&] { vt_socket_close(s); }), "vt_socket_close"); note_fault(F_PEER_CLOSE); }
    int n = 1 + (int)choose(6); bool err = false; for (int k = 0; k < n; k++) { int32_t r = 0; bool snd = choose(2); char b[32]; bool expect = net_sock((int)c)->err != 0; must_return(run_op([&] { r = snd ? vt_socket_send(c, "hello", 5) : vt_socket_receive_timed(c, b, 32, choose(5)); }), "a datagram call with the peer gone"); run_until_idle(); if (snd) CHECK(r == 5 || r == VT_SOCKET_STATUS_ERROR_SEND, "wrong-status", "send returned %d", r); else CHECK(r == 0 || r == VT_SOCKET_STATUS_ERROR_RECEIVE, "wrong-status", "receive returned %d", r); if (expect) { CHECK(r < 0, "error-hidden", "the refusal reported by the system was hidden (%s returned %d)", snd ? "send" : "receive", r); err = true; } }
    if (err) probe("datagram refused"); must_return(run_op([&] { vt_socket_close(c); }), "vt_socket_close");
}
