// Stand-in for libArcus (absent here): same interface, with the transport and the peer provided by the simulator.
#ifndef SIM_STUB_ARCUS_SOCKET_H
#define SIM_STUB_ARCUS_SOCKET_H
#include <Arcus/Error.h>
#include <Arcus/SocketListener.h>
#include <Arcus/Types.h>
#include <cstdint>
#include <google/protobuf/message.h>
#include <string>
namespace Arcus
{
class Socket
{
public:
    Socket();
    virtual ~Socket();
    Socket(const Socket&) = delete;
    Socket& operator=(const Socket&) = delete;
    virtual SocketState getState() const;
    Error getLastError() const;
    void clearError();
    virtual bool registerMessageType(const google::protobuf::Message* type);
    virtual void addListener(SocketListener* l);
    virtual void removeListener(SocketListener* l);
    virtual void connect(const std::string& address, uint16_t port);
    virtual void listen(const std::string& address, uint16_t port);
    virtual void reset();
    virtual void close();
    virtual void sendMessage(MessagePtr message);
    virtual MessagePtr takeNextMessage();
    virtual MessagePtr createMessage(const std::string& type_name);
private:
    struct Private;
    Private* d_;
};
} // namespace Arcus
#endif
