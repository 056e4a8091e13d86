// Component drivers: a batch file holds {"runs":[{"comp":"buf","ops":[...]}...]}; for each run one json line with the
// recorded events is written.  Each run executes in its own child process so that a crash is an event like any other.
#pragma once
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <nlohmann/json.hpp>
using nlohmann::json;

struct Rec {
    int fd;
    explicit Rec(int f): fd(f) {}
    void operator()(const json& e)
    {
        auto s = e.dump(-1, ' ', true, json::error_handler_t::replace) + "\n";
        size_t off = 0;
        while (off < s.size()) {
            auto n = ::write(fd, s.data() + off, s.size() - off);
            if (n <= 0) break;
            off += size_t(n);
        }
    }
};
using CompFn = std::function<void(const json& run, Rec& rec)>;

inline int compMain(int argc, char** argv, const std::map<std::string, CompFn>& comps)
{
    if (argc < 4) { std::cerr << "usage: comp batch.json outdir parallel\n"; return 2; }
    json batch;
    { std::ifstream f(argv[1]); f >> batch; }
    std::string out = argv[2];
    int par = atoi(argv[3]);
    auto& runs = batch["runs"];
    std::vector<pid_t> kids;
    for (int w = 0; w < par; ++w) {
        pid_t p = fork();
        if (p == 0) {
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            for (size_t k = w; k < runs.size(); k += par) {
                auto fn = out + "/" + std::to_string(k) + ".ndjson";
                pid_t c = fork();
                if (c == 0) {
                    auto efn = out + "/" + std::to_string(k) + ".err";
                    int ef = open(efn.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                    dup2(ef, 2);
                    int fd = open(fn.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                    alarm(60);
                    Rec rec(fd);
                    try { comps.at(runs[k].at("comp").get<std::string>())(runs[k], rec); }
                    catch (const std::exception& e) { rec(json{{"k", "exc"}, {"what", e.what()}}); fflush(nullptr); _exit(0); }
                    rec(json{{"k", "end"}});
                    fflush(nullptr);
                    exit(0);
                }
                int st = 0;
                waitpid(c, &st, 0);
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    int fd = open(fn.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
                    Rec rec(fd);
                    rec(json{{"k", "crash"}, {"sig", WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st)}});
                    close(fd);
                }
            }
            _exit(0);
        }
        kids.push_back(p);
    }
    for (auto p : kids) waitpid(p, nullptr, 0);
    return 0;
}
