/* Native cross-check: files with arbitrary bytes, and a server on the loopback network that sends arbitrary bytes in arbitrary pieces and
   disconnects at any time; readers get exactly those bytes and then the end, starting again and stopping at any time works. */
/* vf-link: -lpthread */
#include <string>
#include <vector>
#include <queue>
#include <mutex>
#include <thread>
#include <atomic>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "vf.h"
#include "client_utils/tcp_client_stream.cpp"
#include "parser/file_stream.cpp"
using HawkTracer::ClientUtils::TCPClientStream;
using HawkTracer::parser::FileStream;
using HawkTracer::parser::Stream;
static void hang(int) { vf_assert(0, "no reader waits for ever and stopping ends"); _exit(1); }
static std::vector<char> any_bytes(size_t max)
{
    std::vector<char> v((size_t)vf_range("bytes", 0, max, 16));
    int kind = (int)vf_range("kind of bytes", 0, 2, 2);
    for (char& c : v) c = kind == 0 ? (char)rand() : kind == 1 ? (char)0xff : (char)(rand() % 3 - 1);
    return v;
}
static void read_all(Stream& s, const std::vector<char>& data)
{
    size_t pos = 0;
    for (;;)
    {
        if (rand() % 2)
        {
            int r = s.read_byte();
            vf_assert(pos < data.size() ? r == (int)(unsigned char)data[pos] : r < 0, "bytes are returned as they are, then the end");
            if (r < 0) return;
            pos++;
        }
        else
        {
            size_t n = 1 + (size_t)rand() % 40;
            std::vector<char> b(n, 'x');
            bool ok = s.read_data(b.data(), n);
            vf_assert(ok == (pos + n <= data.size()), "a read fails exactly when bytes are missing");
            if (!ok) return;
            vf_assert(memcmp(b.data(), &data[pos], n) == 0, "bytes are returned as they are, in order");
            pos += n;
        }
    }
}
extern "C" void N_file(void)
{
    srand((unsigned)vf_u64("seed"));
    std::vector<char> data = any_bytes(2000);
    char name[] = "/tmp/vf_streamXXXXXX";
    int fd = mkstemp(name);
    vf_assume(fd >= 0);
    vf_assume(data.empty() || write(fd, data.data(), data.size()) == (ssize_t)data.size());
    close(fd);
    {
        FileStream s(name);
        vf_assert(s.start(), "a file can be opened");
        read_all(s, data);
        if (rand() % 2) s.stop();
    }
    unlink(name);
    FileStream gone(name);
    vf_assert(!gone.start(), "a missing file is reported");
}
extern "C" void N_network(void)
{
    srand((unsigned)vf_u64("seed"));
    signal(SIGALRM, hang);
    signal(SIGPIPE, SIG_IGN);
    alarm(15);
    int l = socket(AF_INET, SOCK_STREAM, 0);
    vf_assume(l >= 0);
    struct sockaddr_in a; memset(&a, 0, sizeof(a));
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof(a);
    vf_assume(bind(l, (struct sockaddr*)&a, n) == 0 && listen(l, 4) == 0 && getsockname(l, (struct sockaddr*)&a, &n) == 0);
    {
        TCPClientStream s("127.0.0.1", ntohs(a.sin_port), rand() % 2);
        int rounds = 1 + rand() % 3;
        for (int i = 0; i < rounds; i++)
        {
            std::vector<char> data = any_bytes(3000);
            bool early = rand() % 4 == 0, quiet = rand() % 4 == 0;
            std::atomic<int> go(0);
            unsigned seed = (unsigned)rand();
            vf_assert(s.start(), "a listening server is reached");
            std::thread server([&] {
                unsigned r = seed;
                int c = accept(l, NULL, NULL);
                size_t pos = 0;
                while (pos < data.size())
                {
                    size_t k = 1 + (size_t)rand_r(&r) % 300;
                    if (k > data.size() - pos) k = data.size() - pos;
                    ssize_t w = send(c, &data[pos], k, 0);
                    if (w <= 0) break;
                    pos += (size_t)w;
                    if (rand_r(&r) % 3 == 0) usleep(rand_r(&r) % 200);
                }
                if (early && quiet) while (!go) usleep(100);      /* the client stops while nothing arrives */
                close(c);
            });
            if (early)
            {
                for (size_t k = data.size() ? (size_t)rand() % data.size() : 0, i = 0; i < k; i++) vf_assert(s.read_byte() == (int)(unsigned char)data[i], "bytes are returned as they were sent, in order");
                s.stop();
                vf_assert(!s.is_connected(), "a stopped stream is not connected");
                go = 1;
                server.join();
                break;                                            /* what was received but not read is still there: not part of the claim */
            }
            std::vector<char> whole = data;
            /* read up to the end; a failed block read leaves the rest unread, so blocks are only used while enough is there */
            size_t pos = 0;
            while (pos < whole.size())
            {
                if (rand() % 2) { int r = s.read_byte(); vf_assert(r == (int)(unsigned char)whole[pos], "bytes are returned as they were sent, in order"); pos++; }
                else
                {
                    size_t k = 1 + (size_t)rand() % 700;
                    if (k > whole.size() - pos) k = whole.size() - pos;
                    std::vector<char> b(k);
                    vf_assert(s.read_data(b.data(), k), "a read within the data succeeds");
                    vf_assert(memcmp(b.data(), &whole[pos], k) == 0, "bytes are returned as they were sent, in order");
                    pos += k;
                }
            }
            char c;
            if (rand() % 2) vf_assert(s.read_byte() < 0, "the end is reported after the last byte");
            else vf_assert(!s.read_data(&c, 1), "a read beyond the end fails");
            server.join();
            if (rand() % 2) s.stop();
        }
    }
    close(l);
    alarm(0);
}
