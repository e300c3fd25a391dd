#ifndef SIM_STUB_CFE_AST_H
#define SIM_STUB_CFE_AST_H
#include <cura-formulae-engine/env.h>
namespace CuraFormulaeEngine::ast
{
// Keeps the token text; the stand-in parses and evaluates in one pass.
struct ExprPtr
{
    std::string text;
    eval::Result evaluate(const env::Environment* env) const;
};
} // namespace CuraFormulaeEngine::ast
#endif
