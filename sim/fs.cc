// Simulated file system and stdio. Streams are real glibc stdio (fopencookie) over simulated descriptors, so that
// buffering, partial flushes and deferred errors behave as in production.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "handles.h"
#include <cerrno>
#include <cstdlib>
#include <algorithm>
#include <dirent.h>
#include <ftw.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/uio.h>

namespace sim {
static std::vector<Inode> inodes; static int cwd_ino = 0; static u64 order_salt = 0;
i64 g_disk_free = -1; std::string g_cwd_override; std::string g_stderr, g_stdout; bool g_stderr_closed = false, g_stderr_fails = false;
int g_bad_close = 0;
static std::map<int, Handle> fds; 
struct Stream { int fd; char *vbuf; int owner; };
static std::map<FILE *, Stream> streams;
struct SimDir { int ino, fd, owner; std::vector<std::string> names; size_t pos; struct dirent de; };
static std::set<SimDir *> dirs;
void locks_file_closed(int ino);
static int cwd() { return cwd_ino; }

Inode &fs_inode(int id) { return inodes[id]; }
static int new_inode(IType t) { Inode n; n.id = (int)inodes.size(); n.type = t; n.order = mix(order_salt + n.id); inodes.push_back(n); return n.id; }
void fs_reset() {
    inodes.clear(); fds.clear(); streams.clear(); dirs.clear(); order_salt = 0;
    int r = new_inode(T_DIR); inodes[r].parent = r; cwd_ino = r;
    fs_mkdir("/work"); cwd_ino = fs_resolve("/work", true);
    order_salt = choose(8); g_disk_free = -1; g_bad_close = 0; g_stderr.clear(); g_stdout.clear(); g_stderr_closed = g_stderr_fails = false; g_dtype_unknown = false; g_stdin_closed = -1;
    for (auto &i : inodes) i.order = mix(order_salt + i.id);
}
struct Walk { int parent = -1; std::string last; int ino = -1; int err = 0; bool slash = false; };
static Walk walk_from(int base, const std::string &path, bool follow_last, int depth) {
    Walk w;
    if (path.empty()) { w.err = ENOENT; return w; }
    if (path.size() >= 4096) { w.err = ENAMETOOLONG; return w; }
    int curi = path[0] == '/' ? 0 : base; size_t i = 0; int par = curi; w.last = ""; bool any = false;
    std::vector<std::string> comp;
    while (i < path.size()) { while (i < path.size() && path[i] == '/') i++; size_t j = i; while (j < path.size() && path[j] != '/') j++; if (j > i) comp.push_back(path.substr(i, j - i)); i = j; }
    w.slash = path.back() == '/';
    if (comp.empty()) { w.parent = 0; w.ino = 0; w.last = "/"; return w; }
    for (size_t k = 0; k < comp.size(); k++) {
        const std::string &c = comp[k]; bool last = k + 1 == comp.size();
        if (inodes[curi].type != T_DIR) { w.err = ENOTDIR; return w; }
        if (inodes[curi].nosearch) { w.err = EACCES; return w; }
        if (c.size() > 255) { w.err = ENAMETOOLONG; return w; }
        par = curi; any = true; int nx;
        if (c == ".") nx = curi; else if (c == "..") nx = inodes[curi].parent;
        else { auto it = inodes[curi].ent.find(c); nx = it == inodes[curi].ent.end() ? -1 : it->second; }
        if (nx >= 0 && inodes[nx].type == T_LNK && (!last || follow_last || w.slash)) {
            if (depth > 20) { w.err = ELOOP; return w; }
            Walk s = walk_from(par, inodes[nx].target, true, depth + 1);
            if (s.err && !(last && s.err == ENOENT)) { w.err = s.err; return w; }
            if (s.ino < 0) { if (last) { w.parent = s.parent; w.last = s.last; w.ino = -1; w.err = ENOENT; return w; } w.err = ENOENT; return w; }
            nx = s.ino; if (last) { w.parent = s.parent; w.last = s.last; w.ino = nx; if (w.slash && inodes[nx].type != T_DIR) w.err = ENOTDIR; return w; }
        }
        if (nx < 0) { if (last) { w.parent = par; w.last = c; w.err = ENOENT; return w; } w.err = ENOENT; return w; }
        if (last) { w.parent = par; w.last = c; w.ino = nx; if (w.slash && inodes[nx].type != T_DIR) w.err = ENOTDIR; return w; }
        curi = nx;
    }
    (void)any; return w;
}
static Walk walk(const std::string &path, bool follow_last) { return walk_from(cwd(), path, follow_last, 0); }
// the entry itself, for rename, rmdir and unlink: a trailing separator does not follow a link but demands a directory (as on Linux)
static Walk walk_entry(const std::string &path) {
    std::string q = path; bool slash = false; while (q.size() > 1 && q.back() == '/') { q.pop_back(); slash = true; }
    Walk w = walk(q, false); w.slash = slash; if (!w.err && slash && inodes[w.ino].type != T_DIR) w.err = ENOTDIR; return w;
}
int fs_resolve(const std::string &path, bool follow_last, int *err) { Walk w = walk(path, follow_last); if (err) *err = w.err; return w.err ? -1 : w.ino; }
int fs_mkdir(const std::string &path) {
    std::string p; size_t i = 0; int ino = path[0] == '/' ? 0 : cwd();
    while (i < path.size()) {
        size_t j = path.find('/', i); if (j == std::string::npos) j = path.size();
        std::string c = path.substr(i, j - i); i = j + 1; if (c.empty()) continue;
        auto it = inodes[ino].ent.find(c);
        if (it != inodes[ino].ent.end()) ino = it->second;
        else { int n = new_inode(T_DIR); inodes[n].parent = ino; inodes[ino].ent[c] = n; ino = n; }
    }
    return ino;
}
static int split_parent(const std::string &path, std::string &last) {
    size_t s = path.rfind('/'); last = s == std::string::npos ? path : path.substr(s + 1);
    return s == std::string::npos ? cwd() : s == 0 ? 0 : fs_mkdir(path.substr(0, s));
}
int fs_put(const std::string &path, const std::string &data) {
    std::string l; int p = split_parent(path, l); auto it = inodes[p].ent.find(l); int n;
    if (it != inodes[p].ent.end()) n = it->second; else { n = new_inode(T_REG); inodes[p].ent[l] = n; inodes[n].parent = p; }
    inodes[n].data = data; inodes[n].hole = 0; return n;
}
int fs_symlink(const std::string &path, const std::string &target) { std::string l; int p = split_parent(path, l); int n = new_inode(T_LNK); inodes[n].target = target; inodes[n].parent = p; inodes[p].ent[l] = n; return n; }
int fs_fifo(const std::string &path) { std::string l; int p = split_parent(path, l); int n = new_inode(T_FIFO); inodes[n].parent = p; inodes[p].ent[l] = n; return n; }
int fs_special(const std::string &path, unsigned fmt) { int n = fs_fifo(path); inodes[n].special = fmt; return n; }
void fs_link(const std::string &path, int ino) { std::string l; int p = split_parent(path, l); inodes[p].ent[l] = ino; inodes[ino].nlink++; }
bool g_dtype_unknown = false, g_dir_links = true;
bool fs_exists(const std::string &path) { return fs_resolve(path, false) >= 0; }
bool fs_is_dir(const std::string &path) { int i = fs_resolve(path, true); return i >= 0 && inodes[i].type == T_DIR; }
std::string fs_get(const std::string &path) { int i = fs_resolve(path, true); return i < 0 ? std::string() : inodes[i].data; }
void fs_unlink_raw(const std::string &path) { Walk w = walk(path, false); if (!w.err) inodes[w.parent].ent.erase(w.last); }
static void snap(int ino, const std::string &p, std::map<std::string, std::string> &m) {
    for (auto &e : inodes[ino].ent) {
        std::string q = p + "/" + e.first; Inode &n = inodes[e.second];
        if (n.type == T_DIR) { m[q] = "d"; snap(e.second, q, m); } else if (n.type == T_REG) m[q] = "f:" + n.data + (n.hole ? "+" + std::to_string(n.hole) : ""); else if (n.type == T_FIFO) m[q] = "p"; else m[q] = "l:" + n.target;
    }
}
static void modes(int ino, const std::string &p, std::map<std::string, int> &m) { for (auto &e : inodes[ino].ent) { std::string q = p + "/" + e.first; Inode &n = inodes[e.second]; if (n.mode_set >= 0) m[q] = n.mode_set; if (n.type == T_DIR) modes(e.second, q, m); } }
std::map<std::string, int> fs_modes() { std::map<std::string, int> m; modes(0, "", m); return m; }
std::map<std::string, std::string> fs_snapshot(const std::string &root) { std::map<std::string, std::string> m; int i = fs_resolve(root, true); if (i >= 0) snap(i, root == "/" ? "" : root, m); return m; }

// ------------------------------------------------------------------ descriptors
int g_stdin_closed = -1;
int handle_new(const Handle &h) { int fd = g_stdin_closed >= 0 && (int)fds.size() >= g_stdin_closed && !fds.count(0) ? 0 : 3; while (fds.count(fd)) fd++; fds[fd] = h; fds[fd].owner = cur_task(); return fd; }
Handle *handle_get(int fd) { auto it = fds.find(fd); return it == fds.end() ? nullptr : &it->second; }
void handle_drop(int fd) { fds.erase(fd); }
std::map<int, Handle> &handle_all() { return fds; }
int open_handles() { return (int)(fds.size() + dirs.size()); }
std::string open_handles_desc() {
    std::string s; char b[64];
    for (auto &f : fds) { snprintf(b, sizeof b, " fd%d", f.first); s += b; s += f.second.sock ? "(socket)" : "(file " + f.second.path + ")"; }
    for (auto *d : dirs) { snprintf(b, sizeof b, " dir#%d", d->ino); s += b; }
    return s;
}
void fs_check_handles(const char *what, int before) {
    CHECK(open_handles() == before, "handle-leak", "%s left %d handle(s) open:%s", what, open_handles() - before, open_handles_desc().c_str());
    CHECK(g_bad_close == 0, "bad-close", "%s closed something that was not open", what);
}
void locks_task_ended(int t);
void fs_task_ended(int task, bool flush) {
    locks_task_ended(task);
    if (flush) { std::vector<FILE *> v; for (auto &s : streams) if (s.second.owner == task) v.push_back(s.first); for (auto *f : v) fflush(f); }
    for (auto it = streams.begin(); it != streams.end();) if (it->second.owner == task) it = streams.erase(it); else ++it;
    for (auto it = dirs.begin(); it != dirs.end();) if ((*it)->owner == task) it = dirs.erase(it); else ++it;
    for (auto it = fds.begin(); it != fds.end();) if (it->second.owner == task && !it->second.sock) it = fds.erase(it); else ++it;
}
static int err_pick(std::vector<int> v) { return v[choose((u32)v.size())]; }

// permissions asked for at creation, less the usual umask of 022
static void set_mode(Inode &n, mode_t m) { m &= ~(mode_t)022; n.noread = !(m & 0400); n.nowrite = !(m & 0200); n.nosearch = n.type == T_DIR && !(m & 0100); }
int fs_open(const char *path, int flags, bool sysmark = true, mode_t mode = 0666) {
    if (sysmark) sys("open");
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (inject(F_OPEN)) { errno = err_pick({EACCES, EMFILE, EIO, ENFILE, ENOMEM}); ev("open %s = -1 (injected %d)", path, errno); return -1; }
    Walk w = walk(path, !(flags & O_NOFOLLOW));
    if (w.err && w.err != ENOENT) { errno = w.err; ev("open %s = -1 %d", path, errno); return -1; }
    if (w.ino >= 0 && !w.err) {
        Inode &n = inodes[w.ino];
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if (n.type == T_DIR && wr) { errno = EISDIR; ev("open %s = -1 EISDIR", path); return -1; }
        if (n.type == T_LNK) { errno = ELOOP; return -1; }
        if (n.type == T_FIFO) { errno = ENXIO; return -1; }
        if ((flags & O_DIRECTORY) && n.type != T_DIR) { errno = ENOTDIR; return -1; }
        if ((wr && n.nowrite) || ((flags & O_ACCMODE) != O_WRONLY && n.noread)) { errno = EACCES; note_fault(F_PERM); ev("open %s = -1 EACCES", path); return -1; }
        if (flags & O_TRUNC) { n.data.clear(); n.hole = 0; }
    } else {
        if (!(flags & O_CREAT) || w.parent < 0 || w.slash) { errno = w.slash && (flags & O_CREAT) ? EISDIR : ENOENT; ev("open %s = -1 ENOENT", path); return -1; }
        if (inodes[w.parent].nowrite) { errno = EACCES; note_fault(F_PERM); return -1; }
        int n = new_inode(T_REG); inodes[n].parent = w.parent; inodes[w.parent].ent[w.last] = n; w.ino = n; set_mode(inodes[n], mode);
    }
    Handle h; h.ino = w.ino; h.flags = flags; h.path = path; int fd = handle_new(h);
    ev("open %s %s%s%s = %d", path, wr ? "w" : "r", flags & O_APPEND ? "a" : "", flags & O_TRUNC ? "t" : "", fd);
    return fd;
}
static void out_text(int fd, const char *b, size_t n) {
    if (fd == 2) { if (!g_stderr_closed) g_stderr.append(b, n); } else g_stdout.append(b, n);
}
ssize_t fs_write(int fd, const char *b, size_t n) {
    if (fd == 1 || fd == 2) {
        if (fd == 2 && (g_stderr_fails || g_stderr_closed)) { errno = EIO; fault_count[F_STDERR]++; return -1; }
        out_text(fd, b, n); ev("write %d %zu", fd, n); return (ssize_t)n;
    }
    Handle *h = handle_get(fd);
    if (cur_task() >= 0 && g_kill_in == 0 && h && h->ino >= 0) {   // killed in the middle of the write
        size_t m = choose((u32)std::min<size_t>(n, 100000) + 1); Inode &i = inodes[h->ino];
        if (h->flags & O_APPEND) i.data.append(b, m); else { if (i.data.size() < h->pos) i.data.resize(h->pos); i.data.replace(h->pos, std::min(m, i.data.size() - h->pos), b, m); }
        ev("torn write %zu of %zu", m, n);
    }
    sys("write");
    h = handle_get(fd);
    if (!h) { errno = EBADF; return -1; }
    if (h->sock) return net_write(fd, b, n);
    if ((h->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (inject(F_WRITE_ERR)) { errno = err_pick({EIO, EDQUOT, EFBIG}); ev("write fd%d %zu = -1 (injected)", fd, n); return -1; }
    if (n && inject(F_ENOSPC)) g_disk_free = choose((u32)n);
    if (n > 1 && inject(F_WRITE_SHORT)) n = 1 + choose((u32)(n - 1));
    if (g_disk_free >= 0) { if ((i64)n > g_disk_free) n = (size_t)g_disk_free; if (n == 0) { errno = ENOSPC; ev("write fd%d = -1 ENOSPC", fd); return -1; } g_disk_free -= (i64)n; }
    Inode &i = inodes[h->ino];
    if (h->flags & O_APPEND) h->pos = i.data.size();
    if (i.data.size() < h->pos) i.data.resize(h->pos);
    i.data.replace(h->pos, std::min(n, i.data.size() - h->pos), b, n); h->pos += n;
    ev("write fd%d %zu", fd, n);
    return (ssize_t)n;
}
ssize_t fs_read(int fd, char *b, size_t n) {
    sys("read");
    Handle *h = handle_get(fd); if (!h) { errno = EBADF; return -1; }
    if (h->sock) return net_read(fd, b, n);
    Inode &i = inodes[h->ino]; if (i.type == T_DIR) { errno = EISDIR; return -1; }
    if ((h->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (inject(F_READ_ERR)) { errno = err_pick({EIO, ENOMEM, EBADMSG}); ev("read fd%d %zu = -1 (injected)", fd, n); return -1; }
    size_t av = (i64)h->pos < i.size() ? (size_t)i.size() - h->pos : 0; if (n > av) n = av;
    if (n > 1 && inject(F_READ_SHORT)) n = 1 + choose((u32)(n - 1));
    size_t real = h->pos < i.data.size() ? std::min(n, i.data.size() - h->pos) : 0; memcpy(b, i.data.data() + (real ? h->pos : 0), real); memset(b + real, 0, n - real); h->pos += n;
    ev("read fd%d %zu", fd, n);
    return (ssize_t)n;
}
int fs_close(int fd) {
    sys("close");
    if (fd == 2) { g_stderr_closed = true; ev("close stderr"); return 0; }
    if (fd == 1) return 0;
    Handle *h = handle_get(fd); if (!h) { g_bad_close++; errno = EBADF; ev("close %d = EBADF", fd); return -1; }
    if (h->sock) return net_close(fd);
    locks_file_closed(h->ino); handle_drop(fd);
    if (inject(F_CLOSE)) { errno = err_pick({EIO, ENOSPC, EDQUOT, EINTR}); ev("close fd%d = -1 (injected)", fd); return -1; }
    ev("close fd%d", fd); return 0;
}
i64 g_told_size = -1;
static void fill_stat(int ino, struct stat *st) {
    if (inodes[ino].type == T_REG) g_told_size = inodes[ino].size();
    memset(st, 0, sizeof *st); Inode &n = inodes[ino]; st->st_ino = ino + 1; st->st_dev = 7; st->st_nlink = (nlink_t)n.nlink; if (n.type == T_DIR && g_dir_links) { st->st_nlink = 2; for (auto &e : n.ent) st->st_nlink += inodes[e.second].type == T_DIR; } st->st_blksize = 4096;
    st->st_mode = n.type == T_DIR ? S_IFDIR | 0755 : n.type == T_REG ? S_IFREG | 0644 : n.type == T_FIFO ? (n.special ? n.special : S_IFIFO) | 0644 : S_IFLNK | 0777; if (n.type != T_LNK) { if (n.noread) st->st_mode &= ~(mode_t)0444; if (n.nowrite) st->st_mode &= ~(mode_t)0222; if (n.nosearch) st->st_mode &= ~(mode_t)0111; }
    st->st_size = n.type == T_FIFO ? 0 : n.type == T_REG ? (off_t)n.size() : n.type == T_DIR ? 4096 : (off_t)n.target.size();
    st->st_blocks = n.type == T_REG ? (blkcnt_t)((n.data.size() + 511) / 512) : (st->st_size + 511) / 512;   // a hole takes no blocks
}
static int do_stat(const char *p, struct stat *st, bool follow, const char *nm) {
    sys(nm);
    if (inject(F_STAT)) { errno = err_pick({EACCES, EIO, ENOMEM, ELOOP}); ev("%s %s = -1 (injected %d)", nm, p, errno); return -1; }
    Walk w = walk(p, follow); if (w.err) { errno = w.err; ev("%s %s = -1 %d", nm, p, errno); return -1; }
    fill_stat(w.ino, st); ev("%s %s", nm, p); return 0;
}
static ssize_t ck_read(void *c, char *b, size_t n) { return fs_read((int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    size_t done = 0; int fd = (int)(long)c;
    while (done < n) { ssize_t r = fs_write(fd, b + done, n - done); if (r < 0) break; done += (size_t)r; }
    return (ssize_t)done;
}
static int ck_seek(void *c, off64_t *o, int wh) {
    Handle *h = handle_get((int)(long)c); if (!h || h->sock) { errno = ESPIPE; return -1; }
    if (inodes[h->ino].type == T_FIFO) { errno = ESPIPE; return -1; }
    if (wh == SEEK_END && inodes[h->ino].type == T_DIR) { errno = EINVAL; return -1; } // as tmpfs answers
    i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)h->pos : inodes[h->ino].size(); b += *o; if (b < 0) { errno = EINVAL; return -1; }
    h->pos = (size_t)b; *o = b; if (wh == SEEK_END) g_told_size = inodes[h->ino].size(); return 0;
}
static int ck_close(void *c) { return fs_close((int)(long)c); }
FILE *make_stream(int fd, const char *mode) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *fp = fopencookie((void *)(long)fd, mode, io); if (!fp) harness_error("fopencookie");
    char *vb = (char *)malloc(4096); setvbuf(fp, vb, _IOFBF, 4096);
    streams[fp] = {fd, vb, cur_task()};
    return fp;
}
static FILE *the_stderr, *the_stdout;
static bool ok_stream(FILE *fp) { return fp == the_stderr || fp == the_stdout || streams.count(fp); }
static void need(FILE *fp, const char *what) { if (!ok_stream(fp)) violation("closed-stream", "%s on a stream that is not open", what); }
}
using namespace sim;
extern "C" {
FILE *sim_stderr, *sim_stdout, *sim_stdin;
}
namespace sim {
static int ck_noclose(void *) { return 0; }
void init_streams() {
    cookie_io_functions_t io = {nullptr, ck_write, nullptr, ck_noclose};
    the_stderr = fopencookie((void *)2l, "w", io); setvbuf(the_stderr, nullptr, _IONBF, 0);
    the_stdout = fopencookie((void *)1l, "w", io); setvbuf(the_stdout, nullptr, _IONBF, 0);
    sim_stderr = the_stderr; sim_stdout = the_stdout; sim_stdin = nullptr;
}
}
static int mode_flags(const char *m) {
    int f; bool plus = strchr(m, '+');
    switch (m[0]) { case 'r': f = plus ? O_RDWR : O_RDONLY; break; case 'w': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break; case 'a': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break; default: return -1; }
    if (strchr(m, 'x')) f |= O_EXCL;
    return f;
}
extern "C" {
FILE *sim_fopen(const char *p, const char *m) {
    int f = mode_flags(m); if (f < 0) { errno = EINVAL; return nullptr; }
    int fd = fs_open(p, f); if (fd < 0) return nullptr;
    return make_stream(fd, m);
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *sim_fdopen(int fd, const char *m) { if (!handle_get(fd)) { errno = EBADF; return nullptr; } return make_stream(fd, m); }
FILE *sim_open_memstream(char **p, size_t *n) { FILE *fp = open_memstream(p, n); if (fp) streams[fp] = {-1, nullptr, cur_task()}; return fp; }
FILE *sim_fmemopen(void *b, size_t n, const char *m) { FILE *fp = fmemopen(b, n, m); if (fp) streams[fp] = {-1, nullptr, cur_task()}; return fp; }
FILE *sim_freopen(const char *, const char *, FILE *) { harness_error("freopen is not simulated"); }
int sim_fclose(FILE *fp) {
    if (fp == the_stderr) { g_stderr_closed = true; ev("fclose stderr"); return 0; }
    if (fp == the_stdout) { ev("fclose stdout"); return 0; }
    auto it = streams.find(fp); if (it == streams.end()) violation("double-close", "fclose of a stream that is not open");
    char *vb = it->second.vbuf; int fd = it->second.fd;
    int r = fclose(fp); int e = errno;
    streams.erase(fp); (void)fd; free(vb); errno = e; return r;
}
int sim_fileno(FILE *fp) { if (fp == the_stderr) return 2; if (fp == the_stdout) return 1; need(fp, "fileno"); return streams[fp].fd; }
int sim_fflush(FILE *fp) { if (!fp) { int r = 0; std::vector<FILE *> v; for (auto &s : streams) v.push_back(s.first); for (auto *f : v) if (fflush(f)) r = EOF; return r; } need(fp, "fflush"); return fflush(fp); }
int sim_vfprintf(FILE *fp, const char *fmt, va_list a) { need(fp, "vfprintf"); tick(); return vfprintf(fp, fmt, a); }
int sim_fprintf(FILE *fp, const char *fmt, ...) { need(fp, "fprintf"); tick(); va_list a; va_start(a, fmt); int r = vfprintf(fp, fmt, a); va_end(a); return r; }
int sim_fputs(const char *s, FILE *fp) { need(fp, "fputs"); tick(); return fputs(s, fp); }
int sim_fputc(int c, FILE *fp) { need(fp, "fputc"); tick(); return fputc(c, fp); }
int sim_fputc_unlocked(int c, FILE *fp) { need(fp, "fputc"); return fputc(c, fp); }
int sim_putc_unlocked(int c, FILE *fp) { need(fp, "putc"); return fputc(c, fp); }
int sim_fputs_unlocked(const char *s, FILE *fp) { need(fp, "fputs"); return fputs(s, fp); }
int sim_getc_unlocked(FILE *fp) { need(fp, "getc"); return fgetc(fp); }
size_t sim_fwrite_unlocked(const void *p, size_t a, size_t b, FILE *fp) { need(fp, "fwrite"); return fwrite(p, a, b, fp); }
size_t sim_fread_unlocked(void *p, size_t a, size_t b, FILE *fp) { need(fp, "fread"); return fread(p, a, b, fp); }
int sim_putc(int c, FILE *fp) { need(fp, "putc"); tick(); return fputc(c, fp); }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *fp) { need(fp, "fwrite"); tick(); return fwrite(p, a, b, fp); }
size_t sim_fread(void *p, size_t a, size_t b, FILE *fp) { need(fp, "fread"); return fread(p, a, b, fp); }
char *sim_fgets(char *s, int n, FILE *fp) { need(fp, "fgets"); return fgets(s, n, fp); }
int sim_fgetc(FILE *fp) { need(fp, "fgetc"); return fgetc(fp); }
int sim_getc(FILE *fp) { need(fp, "getc"); return fgetc(fp); }
int sim_ungetc(int c, FILE *fp) { need(fp, "ungetc"); return ungetc(c, fp); }
int sim_fseek(FILE *fp, long o, int w) { need(fp, "fseek"); return fseek(fp, o, w); }
int sim_fseeko(FILE *fp, off_t o, int w) { need(fp, "fseeko"); return fseeko(fp, o, w); }
long sim_ftell(FILE *fp) { need(fp, "ftell"); return ftell(fp); }
off_t sim_ftello(FILE *fp) { need(fp, "ftello"); return ftello(fp); }
void sim_rewind(FILE *fp) { need(fp, "rewind"); rewind(fp); }
int sim_feof(FILE *fp) { need(fp, "feof"); return feof(fp); }
int sim_ferror(FILE *fp) { need(fp, "ferror"); return ferror(fp); }
void sim_clearerr(FILE *fp) { need(fp, "clearerr"); clearerr(fp); }
// a cookie stream that is not buffered reads byte by byte, where a real one reads what is asked for in one call: reading stays buffered
static bool reads_only(FILE *fp) { return fp->_flags & 0x0008; }
int sim_setvbuf(FILE *fp, char *b, int m, size_t n) { need(fp, "setvbuf"); if (m == _IONBF && reads_only(fp)) return 0; return setvbuf(fp, b, m, n); }
void sim_setbuf(FILE *fp, char *b) { need(fp, "setbuf"); if (!b && reads_only(fp)) return; setbuf(fp, b); }
void sim_setlinebuf(FILE *fp) { need(fp, "setlinebuf"); setlinebuf(fp); }
void sim_flockfile(FILE *) {}
void sim_funlockfile(FILE *) {}
int sim_vprintf(const char *fmt, va_list a) { return vfprintf(the_stdout, fmt, a); }
int sim_printf(const char *fmt, ...) { va_list a; va_start(a, fmt); int r = vfprintf(the_stdout, fmt, a); va_end(a); return r; }
int sim_puts(const char *s) { int r = fputs(s, the_stdout); fputc('\n', the_stdout); return r; }
int sim_putchar(int c) { return fputc(c, the_stdout); }
void sim_perror(const char *s) { fprintf(the_stderr, "%s%s%s\n", s ? s : "", s ? ": " : "", strerror(errno)); }
int sim_vdprintf(int fd, const char *fmt, va_list a) { char *s = nullptr; int n = vasprintf(&s, fmt, a); if (n < 0) return -1; ssize_t r = ck_write((void *)(long)fd, s, (size_t)n); free(s); return r == n ? n : -1; }
int sim_dprintf(int fd, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = sim_vdprintf(fd, fmt, a); va_end(a); return r; }
ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *fp) {
    need(fp, "getdelim"); std::string s; int c; while ((c = fgetc(fp)) != EOF) { s += (char)c; if (c == d) break; }
    if (s.empty()) return -1;
    if (!*l || *n < s.size() + 1) { char *q = (char *)mem_alloc_libc(s.size() + 1); if (*l) mem_free(*l); *l = q; *n = s.size() + 1; }
    memcpy(*l, s.c_str(), s.size() + 1); return (ssize_t)s.size();
}
ssize_t sim_getline(char **l, size_t *n, FILE *fp) { return sim_getdelim(l, n, '\n', fp); }

#define CREATE_MODE(f) mode_t m = 0; if ((f) & O_CREAT) { va_list ap; va_start(ap, f); m = va_arg(ap, mode_t); va_end(ap); }
int sim_open(const char *p, int f, ...) { CREATE_MODE(f); return fs_open(p, f, true, m); }
int sim_open64(const char *p, int f, ...) { CREATE_MODE(f); return fs_open(p, f, true, m); }
int sim_creat(const char *p, mode_t m) { return fs_open(p, O_WRONLY | O_CREAT | O_TRUNC, true, m); }
static std::string at_path(int dfd, const char *p) {
    if (p[0] == '/' || dfd == AT_FDCWD) return p;
    Handle *h = handle_get(dfd); if (!h || h->sock) return std::string("/nonexistent-fd/");
    std::string q = p; int i = h->ino; std::string pre;
    while (i != 0) { int par = inodes[i].parent; for (auto &e : inodes[par].ent) if (e.second == i) { pre = "/" + e.first + pre; break; } i = par; }
    return pre + "/" + q;
}
int sim_openat(int d, const char *p, int f, ...) { CREATE_MODE(f); return fs_open(at_path(d, p).c_str(), f, true, m); }
ssize_t sim_read(int fd, void *b, size_t n) { return fs_read(fd, (char *)b, n); }
ssize_t sim_write(int fd, const void *b, size_t n) { return fs_write(fd, (const char *)b, n); }
ssize_t sim_writev(int fd, const struct iovec *v, int n) { std::string s; for (int i = 0; i < n; i++) s.append((char *)v[i].iov_base, v[i].iov_len); return fs_write(fd, s.data(), s.size()); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { Handle *h = handle_get(fd); if (!h || h->sock) { errno = EBADF; return -1; } size_t sv = h->pos; h->pos = (size_t)o; ssize_t r = fs_read(fd, (char *)b, n); h = handle_get(fd); if (h) h->pos = sv; return r; }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { Handle *h = handle_get(fd); if (!h || h->sock) { errno = EBADF; return -1; } size_t sv = h->pos; h->pos = (size_t)o; ssize_t r = fs_write(fd, (const char *)b, n); h = handle_get(fd); if (h) h->pos = sv; return r; }
off_t sim_lseek(int fd, off_t o, int w) { off64_t x = o; if (ck_seek((void *)(long)fd, &x, w)) return -1; return x; }
int sim_close(int fd) { return fs_close(fd); }
int sim_fsync(int fd) { sys("fsync"); if (!handle_get(fd)) { errno = EBADF; return -1; } if (inject(F_FSYNC)) { errno = EIO; return -1; } return 0; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_ftruncate(int fd, off_t n) { sys("ftruncate"); Handle *h = handle_get(fd); if (!h || h->sock) { errno = EBADF; return -1; } if (inject(F_WRITE_ERR)) { errno = EIO; return -1; } inodes[h->ino].data.resize((size_t)n); return 0; }
int sim_truncate(const char *p, off_t n) { sys("truncate"); Walk w = walk(p, true); if (w.err) { errno = w.err; return -1; } if (inject(F_WRITE_ERR)) { errno = EIO; return -1; } inodes[w.ino].data.resize((size_t)n); return 0; }
int sim_dup(int fd) { Handle *h = handle_get(fd); if (!h) { errno = EBADF; return -1; } return handle_new(*h); }
int sim_dup2(int, int) { harness_error("dup2 is not simulated"); }
int sim_fstat(int fd, struct stat *st) {
    sys("fstat"); Handle *h = handle_get(fd); if (!h || h->sock) { if (fd <= 2) { memset(st, 0, sizeof *st); st->st_mode = S_IFCHR; return 0; } errno = EBADF; return -1; }
    if (inject(F_STAT)) { errno = EIO; return -1; }
    fill_stat(h->ino, st); return 0;
}
int sim_stat(const char *p, struct stat *st) { return do_stat(p, st, true, "stat"); }
int sim_lstat(const char *p, struct stat *st) { return do_stat(p, st, false, "lstat"); }
int sim_stat64(const char *p, struct stat *st) { return do_stat(p, st, true, "stat"); }
int sim_lstat64(const char *p, struct stat *st) { return do_stat(p, st, false, "lstat"); }
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
int sim_fstatat(int d, const char *p, struct stat *st, int fl) { return do_stat(at_path(d, p).c_str(), st, !(fl & AT_SYMLINK_NOFOLLOW), "fstatat"); }
int sim_access(const char *p, int m) {
    sys("access"); if (inject(F_STAT)) { errno = EACCES; return -1; }
    Walk w = walk(p, true); if (w.err) { errno = w.err; return -1; }
    if (((m & R_OK) && inodes[w.ino].noread) || ((m & W_OK) && inodes[w.ino].nowrite) || ((m & X_OK) && (inodes[w.ino].type != T_DIR || inodes[w.ino].nosearch))) { errno = EACCES; return -1; }
    return 0;
}
int sim_faccessat(int d, const char *p, int m, int) { return sim_access(at_path(d, p).c_str(), m); }
int sim_mkdir(const char *p, mode_t mode) {
    sys("mkdir"); if (inject(F_MKDIR)) { errno = err_pick({ENOSPC, EACCES, EROFS, EIO, EDQUOT}); ev("mkdir %s = -1 (injected)", p); return -1; }
    Walk w = walk(p, false);
    if (!w.err) { errno = EEXIST; ev("mkdir %s = EEXIST", p); return -1; }
    if (w.err == ENOTDIR && w.ino >= 0) { errno = EEXIST; return -1; }
    if (w.err != ENOENT || w.parent < 0) { errno = w.err; ev("mkdir %s = %d", p, errno); return -1; }
    if (inodes[w.parent].nowrite) { errno = EACCES; note_fault(F_PERM); ev("mkdir %s = EACCES", p); return -1; }
    // a dangling link with a trailing separator
    { std::string q = p; while (q.size() > 1 && q.back() == '/') q.pop_back(); Walk l = walk(q, false); if (!l.err && inodes[l.ino].type == T_LNK) { errno = EEXIST; return -1; } }
    int n = new_inode(T_DIR); inodes[n].parent = w.parent; inodes[w.parent].ent[w.last] = n; set_mode(inodes[n], mode); ev("mkdir %s mode %o", p, (unsigned)mode); return 0;
}
int sim_mkdirat(int d, const char *p, mode_t m) { return sim_mkdir(at_path(d, p).c_str(), m); }
int sim_rmdir(const char *p) {
    sys("rmdir"); if (inject(F_RMDIR)) { errno = err_pick({EACCES, EBUSY, EIO, EROFS}); ev("rmdir %s = -1 (injected)", p); return -1; }
    Walk w = walk_entry(p); if (w.err) { errno = w.err; ev("rmdir %s = %d", p, errno); return -1; }
    Inode &n = inodes[w.ino]; if (n.type != T_DIR) { errno = ENOTDIR; ev("rmdir %s = ENOTDIR", p); return -1; }
    if (w.ino == 0) { errno = EBUSY; return -1; }
    if (w.last == ".") { errno = EINVAL; return -1; }
    if (!n.ent.empty() || w.last == "..") { errno = ENOTEMPTY; ev("rmdir %s = ENOTEMPTY", p); return -1; }
    if (inodes[w.parent].nowrite) { errno = EACCES; note_fault(F_PERM); return -1; }
    inodes[w.parent].ent.erase(w.last); ev("rmdir %s", p); return 0;
}
int sim_unlink(const char *p) {
    sys("unlink"); if (inject(F_UNLINK)) { errno = err_pick({EACCES, EBUSY, EIO, EROFS}); ev("unlink %s = -1 (injected)", p); return -1; }
    Walk w = walk_entry(p); if (w.err) { errno = w.err; ev("unlink %s = %d", p, errno); return -1; }
    if (inodes[w.ino].type == T_DIR) { errno = EISDIR; return -1; }
    if (inodes[w.parent].nowrite) { errno = EACCES; note_fault(F_PERM); return -1; }
    inodes[w.parent].ent.erase(w.last); inodes[w.ino].nlink--; ev("unlink %s", p); return 0;
}
int sim_unlinkat(int d, const char *p, int fl) { std::string q = at_path(d, p); return fl & AT_REMOVEDIR ? sim_rmdir(q.c_str()) : sim_unlink(q.c_str()); }
int sim_remove(const char *p) { Walk w = walk_entry(p); if (!w.err && inodes[w.ino].type == T_DIR) return sim_rmdir(p); return sim_unlink(p); }
static bool is_under(int ino, int anc) { for (;;) { if (ino == anc) return true; if (ino == 0) return false; ino = inodes[ino].parent; } }
int sim_rename(const char *a, const char *b) {
    sys("rename"); if (inject(F_RENAME)) { errno = err_pick({EACCES, EIO, ENOSPC, EXDEV, EROFS}); ev("rename %s %s = -1 (injected)", a, b); return -1; }
    Walk x = walk_entry(a), y = walk_entry(b);
    if (x.err) { errno = x.err; return -1; }
    if (y.err && (y.err != ENOENT || y.parent < 0)) { errno = y.err; return -1; }
    bool xd = inodes[x.ino].type == T_DIR;
    if (x.ino == 0 || x.last == "." || x.last == ".." || y.last == "." || y.last == "..") { errno = EBUSY; return -1; }
    if (y.err && y.slash && !xd) { errno = ENOTDIR; return -1; }
    if (xd && is_under(y.parent, x.ino)) { errno = EINVAL; return -1; }
    if (!y.err) {
        bool yd = inodes[y.ino].type == T_DIR;
        if (x.ino == y.ino) { ev("rename %s %s (same)", a, b); return 0; }
        if (xd && !yd) { errno = ENOTDIR; return -1; }
        if (!xd && yd) { errno = EISDIR; return -1; }
        if (yd && !inodes[y.ino].ent.empty()) { errno = ENOTEMPTY; return -1; }
    }
    if (inodes[x.parent].nowrite || inodes[y.parent].nowrite) { errno = EACCES; note_fault(F_PERM); return -1; }
    int n = x.ino; inodes[x.parent].ent.erase(x.last); inodes[y.parent].ent[y.last] = n; inodes[n].parent = y.parent;
    ev("rename %s %s", a, b); return 0;
}
int sim_renameat(int d, const char *a, int e, const char *b) { return sim_rename(at_path(d, a).c_str(), at_path(e, b).c_str()); }
int sim_symlink(const char *t, const char *p) { sys("symlink"); Walk w = walk(p, false); if (!w.err) { errno = EEXIST; return -1; } if (w.parent < 0) { errno = w.err; return -1; } int n = new_inode(T_LNK); inodes[n].target = t; inodes[n].parent = w.parent; inodes[w.parent].ent[w.last] = n; return 0; }
int sim_link(const char *, const char *) { errno = EPERM; return -1; }
int sim_chmod(const char *p, mode_t m) { Walk w = walk(p, true); if (w.err) { errno = w.err; return -1; } Inode &n = inodes[w.ino]; n.noread = !(m & 0400); n.nowrite = !(m & 0200); n.nosearch = n.type == T_DIR && !(m & 0100); n.mode_set = (int)m; return 0; }
int sim_fchmod(int fd, mode_t m) { Handle *h = handle_get(fd); if (!h || h->sock) { errno = EBADF; return -1; } inodes[h->ino].mode_set = (int)m; return 0; }
int sim_fchmodat(int d, const char *p, mode_t m, int) { return sim_chmod(at_path(d, p).c_str(), m); }
int sim_chdir(const char *p) { sys("chdir"); Walk w = walk(p, true); if (w.err) { errno = w.err; return -1; } if (inodes[w.ino].type != T_DIR) { errno = ENOTDIR; return -1; } cwd_ino = w.ino; return 0; }
static bool path_of(int i, std::string &out) {
    std::string pre;
    while (i != 0) { int par = inodes[i].parent; bool f = false; for (auto &e : inodes[par].ent) if (e.second == i) { pre = "/" + e.first + pre; f = true; break; } if (!f) return false; i = par; }
    out = pre.empty() ? "/" : pre; return true;
}
char *sim_getcwd(char *b, size_t n) {
    sys("getcwd"); if (inject(F_GETCWD)) { errno = err_pick({ENOENT, EACCES, ENOMEM}); ev("getcwd = NULL (injected)"); return nullptr; }
    std::string p = g_cwd_override; if (p.empty() && !path_of(cwd_ino, p)) { errno = ENOENT; return nullptr; }
    ev("getcwd %zu", p.size());
    if (!b) { if (n && n < p.size() + 1) { errno = ERANGE; return nullptr; } size_t m = n ? n : p.size() + 1; std::string full = p; full.resize(m - 1); return mem_strdup(full); }   // libc's own buffer: its failure is the getcwd fault
    if (n == 0) { errno = EINVAL; return nullptr; }
    if (n < p.size() + 1) { errno = ERANGE; return nullptr; }
    memcpy(b, p.c_str(), p.size() + 1); return b;
}
char *sim_get_current_dir_name() { return sim_getcwd(nullptr, 0); }
ssize_t sim_readlink(const char *p, char *b, size_t n) {
    sys("readlink"); if (inject(F_READLINK)) { errno = err_pick({ENOENT, EACCES, EIO}); ev("readlink %s = -1 (injected)", p); return -1; }
    std::string t;
    if (!strcmp(p, "/proc/self/exe")) { if (g_exe_fail) { errno = ENOENT; return -1; } t = g_exe_path; }
    else { Walk w = walk(p, false); if (w.err) { errno = w.err; return -1; } if (inodes[w.ino].type != T_LNK) { errno = EINVAL; return -1; } t = inodes[w.ino].target; }
    size_t m = t.size() < n ? t.size() : n; memcpy(b, t.data(), m); ev("readlink %s = %zu", p, m); return (ssize_t)m;
}
ssize_t sim_readlinkat(int d, const char *p, char *b, size_t n) { return sim_readlink(at_path(d, p).c_str(), b, n); }
char *sim_realpath(const char *p, char *o) {
    sys("realpath"); if (inject(F_STAT)) { errno = EACCES; return nullptr; }
    std::string q; if (!strcmp(p, "/proc/self/exe")) { if (g_exe_fail) { errno = ENOENT; return nullptr; } q = g_exe_path; }
    else { Walk w = walk(p, true); if (w.err) { errno = w.err; return nullptr; }
        if (inodes[w.ino].type == T_DIR) path_of(w.ino, q); else { path_of(w.parent, q); if (q != "/") q += "/"; q += w.last; } }
    if (!o) { o = (char *)mem_alloc_libc(q.size() + 1); if (!o) return nullptr; }
    memcpy(o, q.c_str(), q.size() + 1); return o;
}
static DIR *dir_new(int ino) {
    SimDir *d = new SimDir(); d->ino = ino; d->fd = -1; d->owner = cur_task(); d->pos = 0;
    std::vector<std::pair<u64, std::string>> v; v.push_back({order_salt == 0 ? 0 : mix(inodes[ino].order + 1), "."}); v.push_back({order_salt == 0 ? 0 : mix(inodes[ino].order + 2), ".."});
    u64 k = 3; for (auto &e : inodes[ino].ent) { u64 h = 0; for (char c : e.first) h = h * 131 + (unsigned char)c; v.push_back({order_salt == 0 ? k++ : mix(inodes[ino].order ^ h), e.first}); }
    std::sort(v.begin(), v.end()); for (auto &x : v) d->names.push_back(x.second);
    dirs.insert(d); return (DIR *)d;
}
DIR *sim_opendir(const char *p) {
    sys("opendir"); if (inject(F_OPENDIR)) { errno = err_pick({EACCES, EMFILE, ENOMEM, EIO}); ev("opendir %s = NULL (injected)", p); return nullptr; }
    Walk w = walk(p, true); if (w.err) { errno = w.err; ev("opendir %s = %d", p, errno); return nullptr; }
    if (inodes[w.ino].type != T_DIR) { errno = ENOTDIR; return nullptr; }
    if (inodes[w.ino].noread) { errno = EACCES; note_fault(F_PERM); ev("opendir %s = EACCES", p); return nullptr; }
    ev("opendir %s", p); return dir_new(w.ino);
}
DIR *sim_fdopendir(int fd) { Handle *h = handle_get(fd); if (!h || h->sock || inodes[h->ino].type != T_DIR) { errno = EBADF; return nullptr; } SimDir *d = (SimDir *)dir_new(h->ino); d->fd = fd; return (DIR *)d; }
struct dirent *sim_readdir(DIR *x) {
    SimDir *d = (SimDir *)x; if (!dirs.count(d)) violation("closed-dir", "readdir on a directory that is not open");
    sys("readdir");
    if (inject(F_READDIR)) { errno = err_pick({EIO, ENOENT, EBADF}); ev("readdir = NULL (injected)"); return nullptr; }
    if (d->pos >= d->names.size()) { ev("readdir end"); return nullptr; }
    memset(&d->de, 0x5A, sizeof d->de);
    const std::string &n = d->names[d->pos++]; memcpy(d->de.d_name, n.c_str(), n.size() + 1); d->de.d_off = (off_t)d->pos; d->de.d_reclen = sizeof d->de;
    auto it = inodes[d->ino].ent.find(n); int ino = it == inodes[d->ino].ent.end() ? d->ino : it->second; d->de.d_ino = (ino_t)ino + 1;
    d->de.d_type = inodes[ino].type == T_DIR ? DT_DIR : inodes[ino].type == T_REG ? DT_REG : inodes[ino].type == T_FIFO ? IFTODT(inodes[ino].special ? inodes[ino].special : S_IFIFO) : DT_LNK; if (g_dtype_unknown) d->de.d_type = DT_UNKNOWN;
    ev("readdir %s", n.c_str()); return &d->de;
}
struct dirent *sim_readdir64(DIR *x) { return sim_readdir(x); }
void sim_rewinddir(DIR *x) { ((SimDir *)x)->pos = 0; }
int sim_dirfd(DIR *x) { SimDir *d = (SimDir *)x; if (d->fd < 0) { Handle h; h.ino = d->ino; h.path = "dirfd"; d->fd = handle_new(h); } return d->fd; }
int sim_closedir(DIR *x) {
    SimDir *d = (SimDir *)x; if (!dirs.count(d)) violation("double-close", "closedir of a directory that is not open");
    sys("closedir"); dirs.erase(d); if (d->fd >= 0) handle_drop(d->fd);
    // the object stays allocated so that a stale use is recognised
    if (inject(F_CLOSEDIR)) { errno = EIO; ev("closedir = -1 (injected)"); return -1; }
    ev("closedir"); return 0;
}
int sim_alphasort(const struct dirent **a, const struct dirent **b) { return strcmp((*a)->d_name, (*b)->d_name); }
int sim_scandir(const char *p, struct dirent ***out, int (*sel)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **)) {
    DIR *d = sim_opendir(p); if (!d) return -1;
    std::vector<struct dirent *> v; struct dirent *e; 
    while ((errno = 0, e = sim_readdir(d))) { if (sel && !sel(e)) continue; struct dirent *c = (struct dirent *)mem_alloc_libc(sizeof *c); *c = *e; v.push_back(c); }
    int er = errno; sim_closedir(d);
    if (er) { for (auto *c : v) mem_free(c); errno = er; return -1; }
    if (cmp) std::sort(v.begin(), v.end(), [&](struct dirent *a, struct dirent *b) { const struct dirent *x = a, *y = b; return cmp(&x, &y) < 0; });
    *out = (struct dirent **)mem_alloc_libc((v.size() ? v.size() : 1) * sizeof(void *)); for (size_t i = 0; i < v.size(); i++) (*out)[i] = v[i];
    return (int)v.size();
}
int sim_mkstemp(char *t) { size_t n = strlen(t); static int k = 0; for (;;) { snprintf(t + n - 6, 7, "%06d", k++); if (fs_resolve(t, false) < 0) return fs_open(t, O_RDWR | O_CREAT | O_EXCL); } }
typedef int (*nftw_fn)(const char *, const struct stat *, int, struct FTW *);
static int nftw_rec(const std::string &p, nftw_fn fn, int fl, int level) {
    struct stat st; struct FTW f; f.level = level; f.base = (int)(p.rfind('/') == std::string::npos ? 0 : p.rfind('/') + 1);
    if (fl & FTW_PHYS ? sim_lstat(p.c_str(), &st) : sim_stat(p.c_str(), &st)) return level == 0 ? -1 : fn(p.c_str(), &st, FTW_NS, &f);
    if (!S_ISDIR(st.st_mode)) return fn(p.c_str(), &st, S_ISLNK(st.st_mode) ? FTW_SL : FTW_F, &f);
    int r = 0; if (!(fl & FTW_DEPTH) && (r = fn(p.c_str(), &st, FTW_D, &f))) return r;
    DIR *d = sim_opendir(p.c_str()); if (!d) return fn(p.c_str(), &st, FTW_DNR, &f);
    std::vector<std::string> v; struct dirent *e; while ((errno = 0, e = sim_readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
    int er = errno; sim_closedir(d); if (er) { errno = er; return -1; }
    for (auto &x : v) if ((r = nftw_rec(p + "/" + x, fn, fl, level + 1))) return r;
    return fl & FTW_DEPTH ? fn(p.c_str(), &st, FTW_DP, &f) : 0;
}
int sim_nftw(const char *p, nftw_fn fn, int, int fl) { return nftw_rec(p, fn, fl, 0); }
}
