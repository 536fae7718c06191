// C39: whoever draws random numbers, no state of a random engine is used twice.
#include "fresh.hpp"
#include "ds.hpp"
#include <deepworks/nn.hpp>
#include <deepworks/model.hpp>
#include <deepworks/initializers.hpp>
namespace I = dw::initializer;
struct World {
    dw::Tensor t = dw::Tensor(Sh{3, 4}), x, y; Lay a = Lay::make(dw::Dropout(0.5f, "a"), {{2, 3}}), b = Lay::make(dw::Dropout(0.25f, "b"), {{4}}); std::shared_ptr<DS> ds = std::make_shared<DS>(9, Sh{2}, Sh{1}); dw::DataLoader l1{ds, 3, true}, l2{ds, 2, true}; dw::Tensor bx, by; dw::Model m;
    World() { dw::Placeholder in(Sh{2, 3}); auto h = dw::Linear(3, "l1")(in); h = dw::Dropout(0.5f, "d1")(h); h = dw::Linear(3, "l2")(h); h = dw::Dropout(0.5f, "d2")(h); m = dw::Model(in, h); m.compile(); x = dw::Tensor::constant({2, 3}, 1); y = dw::Tensor(Sh{2, 3}); }
    static void pass(Lay& l, const Sh& s) { l.train(true); l.forward({dw::Tensor::constant(s, 1)}, s); }
};
static std::vector<fresh::Client> clients() {
    auto w = std::make_shared<World>();
    return {{"uniform", [=] { I::uniform(w->t); }}, {"xavierUniform", [=] { I::xavierUniform(w->t); }}, {"Dropout A", [=] { World::pass(w->a, {2, 3}); }}, {"Dropout B", [=] { World::pass(w->b, {4}); }}, {"shuffled batch, loader 1", [=] { w->l1.pull(w->bx, w->by); }, false},
            {"shuffled batch, loader 2", [=] { dw::Tensor x, y; w->l2.pull(x, y); }, false}, {"new Linear", [] { dw::Linear l(2, "n"); l(dw::Placeholder(Sh{2, 2})); }}, {"model pass in training mode", [=] { w->m.train(true); w->m.forward(w->x, w->y); }}, {"model pass in evaluation mode", [=] { w->m.train(false); w->m.forward(w->x, w->y); }, false}};
}
SCENARIO(sequences, 2) { auto cl = clients(); fresh::sequences(c, cl, c.thorough() ? 6 : 5); }
SCENARIO(long_run, 1) { auto cl = clients(); fresh::many(c, cl[c.choose(8)], c.thorough() ? 20000 : 2000); }
SCENARIO(pairs_long, 2) { auto cl = clients(); auto& a = cl[c.choose(9)]; auto& b = cl[c.choose(9)]; c.tell(a.name, " and ", b.name, " in turn"); draws::Watching w; for (int i = 0; i < 200; ++i) { draws::set([i](uint64_t k) { return uint32_t(vp::mix(i + 7, k) >> 13); }); (i % 3 ? a : b).run(); c.step(); w.verify(c); c.states_n(1); } }
