#ifndef SIM_STUB_CFE_ENV_H
#define SIM_STUB_CFE_ENV_H
#include <cura-formulae-engine/eval.h>
namespace CuraFormulaeEngine::env
{
class Environment
{
public:
    virtual ~Environment() = default;
    virtual std::optional<eval::Value> get(const std::string& id) const noexcept = 0;
    virtual bool has(const std::string& id) const noexcept = 0;
    virtual std::unordered_map<std::string, eval::Value> getAll() const noexcept = 0;
};
class ChainableEnvironment : public Environment
{
    const Environment* shadow_;
public:
    explicit ChainableEnvironment(const Environment* shadow = nullptr) : shadow_(shadow) {}
    std::optional<eval::Value> get(const std::string& id) const noexcept override
    {
        std::optional<eval::Value> v = getImpl(id);
        if (v.has_value() || shadow_ == nullptr) return v;
        return shadow_->get(id);
    }
    bool has(const std::string& id) const noexcept override { return hasImpl(id) || (shadow_ != nullptr && shadow_->has(id)); }
    std::unordered_map<std::string, eval::Value> getAll() const noexcept override
    {
        auto all = getAllImpl();
        if (shadow_ != nullptr)
            for (const auto& [k, v] : shadow_->getAll()) all.emplace(k, v);
        return all;
    }
protected:
    virtual std::optional<eval::Value> getImpl(const std::string& id) const noexcept = 0;
    virtual bool hasImpl(const std::string& id) const noexcept = 0;
    virtual std::unordered_map<std::string, eval::Value> getAllImpl() const noexcept = 0;
};
class EnvironmentMap : public Environment
{
    std::unordered_map<std::string, eval::Value> map_;
public:
    std::optional<eval::Value> get(const std::string& id) const noexcept override
    {
        auto it = map_.find(id);
        return it == map_.end() ? std::nullopt : std::optional<eval::Value>(it->second);
    }
    bool has(const std::string& id) const noexcept override { return map_.count(id) > 0; }
    std::unordered_map<std::string, eval::Value> getAll() const noexcept override { return map_; }
    void set(const std::string& id, eval::Value v) { map_[id] = std::move(v); }
};
class LocalEnvironment : public ChainableEnvironment
{
    std::unordered_map<std::string, eval::Value> map_;
public:
    explicit LocalEnvironment(const Environment* shadow) : ChainableEnvironment(shadow) {}
    void add(const std::unordered_map<std::string, eval::Value>& m)
    {
        for (const auto& [k, v] : m) map_[k] = v;
    }
    void set(const std::string& id, eval::Value v) { map_[id] = std::move(v); }
protected:
    std::optional<eval::Value> getImpl(const std::string& id) const noexcept override
    {
        auto it = map_.find(id);
        return it == map_.end() ? std::nullopt : std::optional<eval::Value>(it->second);
    }
    bool hasImpl(const std::string& id) const noexcept override { return map_.count(id) > 0; }
    std::unordered_map<std::string, eval::Value> getAllImpl() const noexcept override { return map_; }
};
inline const EnvironmentMap std_env{};
} // namespace CuraFormulaeEngine::env
#endif
