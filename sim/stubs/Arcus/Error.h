#ifndef SIM_STUB_ARCUS_ERROR_H
#define SIM_STUB_ARCUS_ERROR_H
#include <Arcus/Types.h>
#include <string>
namespace Arcus
{
class Error
{
    ErrorCode code_ = ErrorCode::UnknownError;
    std::string message_;
public:
    Error() = default;
    Error(ErrorCode c, std::string m) : code_(c), message_(std::move(m)) {}
    ErrorCode getErrorCode() const { return code_; }
    std::string getErrorMessage() const { return message_; }
};
} // namespace Arcus
#endif
