/* Stand-in for the absent BetterThreads submodule: same interface as used by EdgeLearning, real threads.
 * enqueue() starts the task on a thread of its own; get() joins it. */
#ifndef VERIF_STUB_TASK_MANAGER_HPP
#define VERIF_STUB_TASK_MANAGER_HPP
#include <cstddef>
#include <functional>
#include <future>
#include <memory>
#include <tuple>
#include <utility>
#include <thread>
#include <vector>
namespace BetterThreads {
template <typename T> class Future {
public:
    Future() = default;
    explicit Future(std::shared_future<T> f) : _f(std::move(f)) {}
    T get() const { return _f.get(); }
    void wait() const { _f.wait(); }
private:
    std::shared_future<T> _f;
};
class TaskManager {
public:
    static TaskManager& instance() { static TaskManager tm; return tm; }
    void set_maximum_concurrency() { _c = 4; }
    void set_concurrency(std::size_t c) { _c = c; }
    [[nodiscard]] std::size_t concurrency() const { return _c; }
    template <typename F, typename... Args>
    auto enqueue(F&& f, Args&&... args)
    {
        using R = std::invoke_result_t<std::decay_t<F>, std::decay_t<Args>...>;
        auto t = std::make_tuple(std::forward<Args>(args)...);
        auto fn = std::function<R()>([f = std::decay_t<F>(std::forward<F>(f)), t]() mutable { return std::apply(f, t); });
        return Future<R>(std::async(std::launch::async, fn).share());
    }
private:
    std::size_t _c = 4;
};
}
#endif
