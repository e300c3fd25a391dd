#ifndef SIM_STUB_ARCUS_LISTENER_H
#define SIM_STUB_ARCUS_LISTENER_H
#include <Arcus/Error.h>
namespace Arcus
{
class Socket;
class SocketListener
{
    Socket* socket_ = nullptr;
public:
    virtual ~SocketListener() = default;
    Socket* getSocket() const { return socket_; }
    void setSocket(Socket* s) { socket_ = s; }
    virtual void stateChanged(SocketState s) = 0;
    virtual void messageReceived() = 0;
    virtual void error(const Error& e) = 0;
};
} // namespace Arcus
#endif
