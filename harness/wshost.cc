// Drives hgdb::DebugServer: stdin commands are run by several sender threads, every operation is reported on stdout with the
// order it began and ended in.   wshost PORT SENDERS
#include <atomic>
#include <condition_variable>
#include <cstdio>
#include <deque>
#include <iostream>
#include <sstream>
#include <thread>

#include "rapidjson/document.h"
#include "server.hh"

static std::mutex out_lock;
static std::atomic<uint64_t> clock_{0};

static void out(const std::string &s) {
    std::lock_guard g(out_lock);
    std::fwrite(s.data(), 1, s.size(), stdout);
    std::fputc('\n', stdout);
    std::fflush(stdout);
}

static uint32_t crc32(const std::string &s) {
    static std::vector<uint32_t> table = []() {
        std::vector<uint32_t> t(256);
        for (uint32_t i = 0; i < 256; i++) {
            uint32_t c = i;
            for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1;
            t[i] = c;
        }
        return t;
    }();
    uint32_t c = ~0u;
    for (unsigned char ch : s) c = table[(c ^ ch) & 255] ^ (c >> 8);
    return ~c;
}

// the head again and again, with the position in between, so that nothing can be lost or swapped unnoticed
static std::string body(const std::string &head, uint64_t size) {
    std::string r = head;
    while (r.size() < size) r += "|" + head + ":" + std::to_string(r.size());
    if (size > head.size()) r.resize(size);
    return r;
}

using Queue = std::deque<std::string>;
struct Sender {
    std::mutex m;
    std::condition_variable cv;
    Queue q;
};

static void run_cmd(hgdb::DebugServer &server, const std::string &line, int who) {
    // op id [args]
    std::istringstream ss(line);
    std::string op;
    uint64_t id;
    ss >> op >> id;
    if (op == "wait") {
        uint64_t us;
        ss >> us;
        std::this_thread::sleep_for(std::chrono::microseconds(us));
        return;
    }
    auto b = clock_++;
    if (op == "all") {
        std::string head;
        uint64_t size;
        ss >> head >> size;
        server.send(body(head, size));
    } else if (op == "topic") {
        std::string head, topic;
        uint64_t size;
        ss >> head >> size >> topic;
        server.send(body(head, size), topic);
    } else if (op == "conn") {
        std::string head;
        uint64_t size, conn;
        ss >> head >> size >> conn;
        server.send(body(head, size), conn);
    } else if (op == "sub" || op == "unsub") {
        std::string topic;
        uint64_t conn;
        ss >> topic >> conn;
        if (op == "sub")
            server.add_to_topic(topic, conn);
        else
            server.remove_from_topic(topic, conn);
    } else if (op == "stop") {
        server.stop();
    }
    auto e = clock_++;
    out("{\"e\":\"op\",\"id\":" + std::to_string(id) + ",\"b\":" + std::to_string(b) + ",\"n\":" + std::to_string(e) + "}");
}

int main(int, char **argv) {
    auto port = static_cast<uint16_t>(std::atoi(argv[1]));
    int n = std::atoi(argv[2]);
    auto server = std::make_unique<hgdb::DebugServer>();
    server->set_on_message([&](const std::string &msg, uint64_t conn) {
        auto t = clock_++;
        out("{\"e\":\"msg\",\"t\":" + std::to_string(t) + ",\"conn\":" + std::to_string(conn) + ",\"len\":" +
            std::to_string(msg.size()) + ",\"hash\":" + std::to_string(crc32(msg)) + ",\"head\":\"" +
            msg.substr(0, msg.find(' ')).substr(0, 40) + "\"}");
        // "!" in front: run what follows here, in the thread of the server, like an answer. C is the connection itself
        if (!msg.empty() && msg[0] == '!') {
            auto c = msg.substr(1);
            auto p = c.find(" C");
            if (p != std::string::npos) c.replace(p, 2, " " + std::to_string(conn));
            run_cmd(*server, c, -1);
        }
    });
    server->set_on_call_client_disconnect([&]() { out("{\"e\":\"gone\",\"t\":" + std::to_string(clock_++) + "}"); });
    std::atomic<bool> done = false;
    std::thread srv([&]() {
        try {
            server->run(port);
        } catch (const std::exception &ex) {
            out("{\"e\":\"exception\"}");
            std::cerr << ex.what() << std::endl;
        }
        done = true;
        out("{\"e\":\"ended\"}");
    });
    std::vector<std::unique_ptr<Sender>> senders;
    std::vector<std::thread> threads;
    for (int i = 0; i < n; i++) senders.emplace_back(std::make_unique<Sender>());
    for (int i = 0; i < n; i++)
        threads.emplace_back([&, i]() {
            auto &s = *senders[i];
            while (true) {
                std::string line;
                {
                    std::unique_lock l(s.m);
                    s.cv.wait(l, [&]() { return !s.q.empty(); });
                    line = std::move(s.q.front());
                    s.q.pop_front();
                }
                if (line == "quit") return;
                run_cmd(*server, line, i);
            }
        });
    // every line: sender command...
    std::string line;
    while (std::getline(std::cin, line)) {
        auto p = line.find(' ');
        auto who = static_cast<size_t>(std::atoi(line.substr(0, p).c_str()));
        auto &s = *senders[who % senders.size()];
        {
            std::lock_guard l(s.m);
            s.q.emplace_back(line.substr(p + 1));
        }
        s.cv.notify_one();
    }
    for (auto &s : senders) {
        {
            std::lock_guard l(s->m);
            s->q.emplace_back("quit");
        }
        s->cv.notify_one();
    }
    for (auto &t : threads) t.join();
    server->stop();
    srv.join();
    server.reset();
    out("{\"e\":\"end\"}");
    return 0;
}
