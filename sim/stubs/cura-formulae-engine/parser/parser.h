#ifndef SIM_STUB_CFE_PARSER_H
#define SIM_STUB_CFE_PARSER_H
#include <cura-formulae-engine/ast/ast.h>
#include <string_view>
namespace CuraFormulaeEngine::parser
{
enum class error_t { Syntax };
zeus::expected<ast::ExprPtr, error_t> parse(std::string_view text);
} // namespace CuraFormulaeEngine::parser
#endif
