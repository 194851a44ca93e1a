// running compilers and generated programs
#pragma once
#include "vf.h"
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

extern char** environ;

// 0..255 exit code, -1 not started, -2 killed
inline int exec(std::vector<std::string> a, const std::string& log, bool append) {
  std::vector<char*> v;
  for (auto& s : a) v.push_back(s.data());
  v.push_back(nullptr);
  posix_spawn_file_actions_t f;
  posix_spawn_file_actions_init(&f);
  posix_spawn_file_actions_addopen(&f, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&f, 1, log.c_str(), O_WRONLY | O_CREAT | (append ? O_APPEND : O_TRUNC), 0600);
  posix_spawn_file_actions_adddup2(&f, 1, 2);
  pid_t p;
  int e = posix_spawnp(&p, v[0], &f, nullptr, v.data(), environ);
  posix_spawn_file_actions_destroy(&f);
  if (e) return -1;
  int st = 0;
  while (waitpid(p, &st, 0) < 0)
    if (errno != EINTR) return -1;
  return WIFEXITED(st) ? WEXITSTATUS(st) : -2;
}

inline std::string slurp(const std::string& p) {
  std::string o;
  if (FILE* f = fopen(p.c_str(), "r")) {
    char b[4096];
    while (size_t n = fread(b, 1, sizeof b, f)) o.append(b, n);
    fclose(f);
  }
  return o;
}
inline std::string first_error(const std::string& log) {
  size_t p = log.find("multiple definition");
  if (p == std::string::npos) p = log.find("undefined reference");
  if (p == std::string::npos) p = log.find("error");
  if (p == std::string::npos) p = 0;
  size_t b = log.rfind('\n', p);
  b = b == std::string::npos ? 0 : b + 1;
  return log.substr(b, std::min<size_t>(600, log.find('\n', p) - b));
}

// the machine failed, not the program
inline bool machine_failed(int rc, const std::string& log) {
  return rc < 0 || rc > 100 || log.find("error") == std::string::npos || log.find("internal compiler error") != std::string::npos || log.find("PLEASE submit a bug report") != std::string::npos;
}
