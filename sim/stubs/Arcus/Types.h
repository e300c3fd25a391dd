#ifndef SIM_STUB_ARCUS_TYPES_H
#define SIM_STUB_ARCUS_TYPES_H
#include <memory>
namespace google::protobuf { class Message; }
namespace Arcus
{
using MessagePtr = std::shared_ptr<google::protobuf::Message>;
enum class SocketState { Initial, Connecting, Connected, Opening, Listening, Closing, Closed, Error };
enum class ErrorCode { UnknownError, CreationError, ConnectFailedError, BindFailedError, AcceptFailedError, SendFailedError, ReceiveFailedError, UnknownMessageTypeError, ParseFailedError, ConnectionResetError, MessageRegistrationFailedError, InvalidStateError, InvalidMessageError, Debug };
} // namespace Arcus
#endif
