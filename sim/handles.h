#pragma once
#include "sim.h"
#include <memory>
namespace sim {
struct Sock;
struct Handle { int ino = -1; int flags = 0; size_t pos = 0; std::string path; int owner = -1; std::shared_ptr<Sock> sock; };
int handle_new(const Handle &h);
Handle *handle_get(int fd);
void handle_drop(int fd);
std::map<int, Handle> &handle_all();
ssize_t net_write(int fd, const char *b, size_t n);
ssize_t net_read(int fd, char *b, size_t n);
int net_close(int fd);
void fs_task_ended(int task, bool flush);
}
