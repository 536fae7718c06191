#pragma once
#include "dwh.hpp"
#include <deepworks/dataloader.hpp>
struct DS : dw::IDataset {
    int n; Sh xs, ys; std::vector<int> asked; int throw_at = -1; std::string bad;
    DS(int n, Sh x, Sh y) : n(n), xs(x), ys(y) {}
    static size_t cnt(const Sh& s) { return s.empty() ? 1 : prod(s); }
    static float xv(int i, size_t j) { return float(i * 1000 + int(j) + 1); }
    static float yv(int i, size_t j) { return -float(i * 100 + int(j) + 1); }
    size_t size() override { return n; }
    OutShape shape() override { return {xs, ys}; }
    void pull(int i, dw::Tensor& X, dw::Tensor& y) override {
        if (i < 0 || i >= n) bad = "item " + std::to_string(i) + " outside the dataset of " + std::to_string(n) + " was requested";
        if (X.shape() != xs || y.shape() != ys) bad = "the dataset was given tensors of shapes " + sstr(X.shape()) + " and " + sstr(y.shape());
        asked.push_back(i);
        if (throw_at == (int)asked.size()) throw std::runtime_error("dataset failure");
        for (size_t j = 0; j < cnt(xs); ++j) X.data()[j] = xv(i, j);
        for (size_t j = 0; j < cnt(ys); ++j) y.data()[j] = yv(i, j);
    }
};
inline Sh batched(int b, const Sh& s) { Sh r{b}; r.insert(r.end(), s.begin(), s.end()); return r; }
