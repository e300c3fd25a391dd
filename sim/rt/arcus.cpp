// Stand-in for libArcus: the transport is simulated (one network thread per socket, like the original), and the peer is
// a scripted front-end. Messages cross the wire serialised.
#include "sim.h"
#include <Arcus/Socket.h>
#include <algorithm>
#include <cmath>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <google/protobuf/message.h>
#include <mutex>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

#include "Cura.pb.h"

namespace Arcus
{
namespace
{
std::string slurp(const char* path)
{
    std::string s;
    const int fd = ::open(path, O_RDONLY);
    if (fd < 0) return s;
    char b[65536];
    ssize_t n;
    while ((n = ::read(fd, b, sizeof(b))) > 0) s.append(b, static_cast<size_t>(n));
    ::close(fd);
    return s;
}
uint64_t fnv(const std::string& s, uint64_t h = 0xcbf29ce484222325ull)
{
    for (unsigned char c : s) h = (h ^ c) * 0x100000001B3ull;
    return h;
}
} // namespace

struct Socket::Private
{
    std::mutex m;
    std::condition_variable cv;
    SocketState state = SocketState::Initial;
    Error last;
    std::deque<MessagePtr> out;
    std::deque<MessagePtr> in;
    std::vector<SocketListener*> listeners;
    std::vector<const google::protobuf::Message*> types;
    std::thread net;
    bool closing = false;
    int log = -1; // what the front-end received
    int gcode = -1;
    uint64_t received = 0;
    bool dead = false;

    void rec(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char b[1024];
        va_list ap;
        va_start(ap, fmt);
        const int n = vsnprintf(b, sizeof(b), fmt, ap);
        va_end(ap);
        if (log >= 0 && n > 0)
            if (::write(log, b, static_cast<size_t>(n) < sizeof(b) ? static_cast<size_t>(n) : sizeof(b) - 1) < 0) {}
    }

    // front-end side: a serialised message arrived
    void front_end(const std::string& type, const std::string& bytes)
    {
        ++received;
        sim::probe("fe_messages");
        if (type == "cura.proto.Progress")
        {
            cura::proto::Progress p;
            p.ParseFromString(bytes);
            rec("Progress %.9g\n", static_cast<double>(p.amount()));
        }
        else if (type == "cura.proto.LayerOptimized")
        {
            cura::proto::LayerOptimized l;
            l.ParseFromString(bytes);
            uint64_t h = 0xcbf29ce484222325ull;
            size_t segs = 0, pts = 0;
            bool ok = true;
            double printed = 0, kinds[16] = {}, tools[16] = {}, x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
            for (const auto& s : l.path_segment())
            {
                const size_t n = s.line_type().size(), dim = s.point_type() == cura::proto::PathSegment::Point3D ? 3 : 2;
                if (s.points().size() != (n + 1) * dim * 4 || s.line_width().size() != n * 4 || s.line_thickness().size() != n * 4 || s.line_feedrate().size() != n * 4) ok = false;
                h = fnv(s.points(), fnv(s.line_type(), fnv(s.line_width(), fnv(s.line_thickness(), fnv(s.line_feedrate(), h ^ static_cast<uint64_t>(s.extruder()))))));
                segs++;
                pts += n + 1;
                const float* p = reinterpret_cast<const float*>(s.points().data());
                for (size_t i = 0; ok && i < n; ++i)
                {
                    const unsigned char t = static_cast<unsigned char>(s.line_type()[i]);
                    if (t == 0 || t == 8 || t == 9 || t >= 12) continue; // moves
                    const float *a = p + dim * i, *b = a + dim;
                    const double len = std::hypot(b[0] - a[0], b[1] - a[1]);
                    printed += len;
                    kinds[t & 15] += len;
                    tools[s.extruder() & 15] += len;
                    for (const float* q : { a, b })
                    {
                        x0 = std::min(x0, static_cast<double>(q[0])); x1 = std::max(x1, static_cast<double>(q[0]));
                        y0 = std::min(y0, static_cast<double>(q[1])); y1 = std::max(y1, static_cast<double>(q[1]));
                    }
                }
            }
            rec("Layer %d %.9g %.9g %zu %zu %016llx %.6g %.6g %.6g %.6g %.6g %s\n", l.id(), static_cast<double>(l.height()), static_cast<double>(l.thickness()), segs, pts, static_cast<unsigned long long>(h), printed, x0, x1, y0, y1, ok ? "ok" : "malformed");
            rec("Kinds %d", l.id());
            for (int i = 0; i < 16; ++i) if (kinds[i] > 0) rec(" k%d:%.6g", i, kinds[i]);
            for (int i = 0; i < 16; ++i) if (tools[i] > 0) rec(" t%d:%.6g", i, tools[i]);
            rec("\n");
        }
        else if (type == "cura.proto.GCodeLayer")
        {
            cura::proto::GCodeLayer gl;
            gl.ParseFromString(bytes);
            rec("GCode %zu %016llx\n", gl.data().size(), static_cast<unsigned long long>(fnv(gl.data())));
            if (gcode >= 0)
                if (::write(gcode, gl.data().data(), gl.data().size()) < 0) {}
        }
        else if (type == "cura.proto.PrintTimeMaterialEstimates")
        {
            cura::proto::PrintTimeMaterialEstimates e;
            e.ParseFromString(bytes);
            rec("Estimates %016llx", static_cast<unsigned long long>(fnv(bytes)));
            const double t[] = { e.time_none(), e.time_inset_0(), e.time_inset_x(), e.time_skin(), e.time_support(), e.time_skirt(), e.time_infill(), e.time_support_infill(), e.time_travel(), e.time_retract(), e.time_support_interface(), e.time_prime_tower() };
            double sum = 0;
            for (double v : t) sum += v;
            rec(" time %.9g", sum);
            for (const auto& m : e.materialestimates()) rec(" %lld:%.9g:%.9g:%.9g:%.9g:%s", static_cast<long long>(m.id()), static_cast<double>(m.material_amount()), static_cast<double>(m.material_length()), static_cast<double>(m.material_weight()), static_cast<double>(m.material_cost()), m.material_name().c_str());
            rec("\nTimes");
            for (double v : t) rec(" %.9g", v);
            rec("\n");
        }
        else if (type == "cura.proto.InitialExtruder")
        {
            cura::proto::InitialExtruder e;
            e.ParseFromString(bytes);
            rec("InitialExtruder %u\n", e.extruder_nr());
        }
        else if (type == "cura.proto.SlicingFinished") rec("SlicingFinished\n");
        else if (type == "cura.proto.SliceUUID") rec("SliceUUID\n");
        else rec("Unknown %s\n", type.c_str());
    }

    void set_state(SocketState s)
    {
        {
            std::lock_guard<std::mutex> g(m);
            state = s;
        }
        for (SocketListener* l : listeners) l->stateChanged(s);
    }
    void fail(ErrorCode c, const char* msg)
    {
        Error e(c, msg);
        {
            std::lock_guard<std::mutex> g(m);
            last = e;
        }
        for (SocketListener* l : listeners) l->error(e);
    }
    MessagePtr parse(const std::string& type, const std::string& bytes)
    {
        for (const auto* t : types)
            if (t->GetTypeName() == type)
            {
                MessagePtr p(t->New());
                if (! p->ParseFromString(bytes)) return nullptr;
                return p;
            }
        return nullptr;
    }
    void deliver(const std::string& type, const std::string& bytes)
    {
        MessagePtr p = parse(type, bytes);
        if (! p) { fail(ErrorCode::UnknownMessageTypeError, "unknown or malformed message"); return; }
        {
            std::lock_guard<std::mutex> g(m);
            in.push_back(p);
            cv.notify_all();
        }
        for (SocketListener* l : listeners) l->messageReceived();
    }
    void lose()
    {
        dead = true;
        rec("-- connection lost\n");
        sim::probe("connection_lost");
        {
            std::lock_guard<std::mutex> g(m);
            state = SocketState::Error;
            out.clear();
            cv.notify_all();
        }
        fail(ErrorCode::ConnectionResetError, "connection reset by peer");
    }
    void delay(const char* what)
    {
        (void)what;
        if (const uint64_t d = sim::fault(sim::F_NET_DELAY, 10))
        {
            const uint64_t ms[] = { 1, 5, 20, 50, 100, 101, 250, 1000, 10000, 60000 };
            std::this_thread::sleep_for(std::chrono::milliseconds(ms[d - 1]));
        }
    }
    void run()
    {
        delay("connect");
        if (sim::fault(sim::F_NET_REFUSE, 1))
        {
            fail(ErrorCode::ConnectFailedError, "connection refused");
            rec("-- refused\n");
            set_state(SocketState::Error);
            return;
        }
        set_state(SocketState::Connected);
        rec("-- connected\n");
        const std::string slice = slurp(sim::spec_str("arcus_slice"));
        int next = 0; // the front-end's script: garbage, then the slice message
        bool sent = false;
        for (;;)
        {
            if (! sent)
            {
                delay("slice");
                if (sim::fault(sim::F_NET_DROP, 1)) { lose(); return; }
                if (next == 0)
                    if (const uint64_t k = sim::fault(sim::F_NET_GARBAGE, 3))
                    {
                        // messages the engine is not waiting for
                        if (k == 1) deliver("cura.proto.Progress", "");
                        if (k == 2) deliver("cura.proto.SettingList", "");
                        if (k == 3) deliver("cura.proto.NoSuchMessage", "xx");
                        rec("-- garbage %d\n", static_cast<int>(k));
                    }
                ++next;
                deliver("cura.proto.Slice", slice);
                rec("-- slice sent\n");
                sent = true;
            }
            MessagePtr msg;
            {
                std::unique_lock<std::mutex> lk(m);
                if (out.empty())
                {
                    if (closing) break;
                    cv.wait_for(lk, std::chrono::milliseconds(100));
                    if (out.empty()) continue;
                }
                msg = out.front();
                out.pop_front();
            }
            std::string bytes;
            msg->SerializeToString(&bytes);
            const std::string type = msg->GetTypeName();
            msg.reset();
            delay("send");
            if (sim::fault(sim::F_NET_DROP, 1)) { lose(); return; }
            front_end(type, bytes);
        }
        rec("-- closed\n");
        set_state(SocketState::Closed);
    }
};

Socket::Socket() : d_(new Private)
{
    const char* p = sim::spec_str("arcus_log");
    if (*p) d_->log = ::open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    p = sim::spec_str("arcus_gcode");
    if (*p) d_->gcode = ::open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
}
Socket::~Socket()
{
    close();
    for (SocketListener* l : d_->listeners) delete l;
    delete d_;
}
SocketState Socket::getState() const
{
    std::lock_guard<std::mutex> g(d_->m);
    return d_->state;
}
Error Socket::getLastError() const
{
    std::lock_guard<std::mutex> g(d_->m);
    return d_->last;
}
void Socket::clearError()
{
    std::lock_guard<std::mutex> g(d_->m);
    d_->last = Error();
}
bool Socket::registerMessageType(const google::protobuf::Message* t)
{
    d_->types.push_back(t);
    return true;
}
void Socket::addListener(SocketListener* l)
{
    l->setSocket(this);
    d_->listeners.push_back(l);
}
void Socket::removeListener(SocketListener* l) { std::erase(d_->listeners, l); }
void Socket::connect(const std::string&, uint16_t)
{
    {
        std::lock_guard<std::mutex> g(d_->m);
        d_->state = SocketState::Connecting;
    }
    d_->net = std::thread([d = d_] { d->run(); });
}
void Socket::listen(const std::string&, uint16_t) {}
void Socket::reset() {}
void Socket::close()
{
    {
        std::lock_guard<std::mutex> g(d_->m);
        d_->closing = true;
        d_->cv.notify_all();
    }
    if (d_->net.joinable()) d_->net.join();
}
void Socket::sendMessage(MessagePtr message)
{
    std::lock_guard<std::mutex> g(d_->m);
    if (d_->state != SocketState::Connected) return;
    d_->out.push_back(std::move(message));
    d_->cv.notify_all();
}
MessagePtr Socket::takeNextMessage()
{
    std::unique_lock<std::mutex> lk(d_->m);
    // like the original: waits a limited time for a message
    if (d_->in.empty() && d_->state == SocketState::Connected) d_->cv.wait_for(lk, std::chrono::milliseconds(250));
    if (d_->in.empty()) return nullptr;
    MessagePtr p = d_->in.front();
    d_->in.pop_front();
    return p;
}
MessagePtr Socket::createMessage(const std::string& type)
{
    for (const auto* t : d_->types)
        if (t->GetTypeName() == type) return MessagePtr(t->New());
    return nullptr;
}
} // namespace Arcus
