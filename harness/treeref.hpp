// Reference model of a tree: segments with parents, joint numbers in order of addition.
#pragma once
#include "kin.hpp"
#include <tree.hpp>
namespace kin {
struct TNode { std::string name; int parent; Seg g; int q; };   // parent -1: the root
struct TRef {
    std::vector<TNode> n; int joints = 0; std::string root = "root";
    void add(const Seg& g, int parent) { TNode x; x.name = g.name; x.parent = parent; x.g = g; x.q = g.moves() ? joints++ : -1; n.push_back(x); }
    std::string name(int i) const { return i < 0 ? root : n[i].name; }
    KDL::Tree make() const {
        KDL::Tree t(root);
        for (auto& x : n) if (!t.addSegment(x.g.make(), name(x.parent))) mc::fail("tree refused a valid segment", "%s", x.name.c_str());
        return t;
    }
    template <class T> ref::F<T> pose(int i, const std::vector<T>& q) const {
        if (i < 0) return ref::F<T>();
        const TNode& x = n[i];
        return pose(x.parent, q) * x.g.pose(x.q < 0 ? T(0) : q[x.q]);
    }
    bool below(int i, int anc) const { while (i != anc && i >= 0) i = n[i].parent; return i == anc; }
    // 6 x joints
    Mat jacobian(int i, const std::vector<double>& q) const {
        Mat J(6, joints);
        for (int j = 0; j < joints; j++) {
            std::vector<Jet> x(q.begin(), q.end()); x[j].d = 1;
            auto F = pose(i, x);
            V w = ref::omega(F.R), l = ref::v1(F.p);
            for (int k = 0; k < 3; k++) { J(k, j) = l[k]; J(3 + k, j) = w[k]; }
        }
        return J;
    }
    std::string str() const {
        std::string s; for (auto& x : n) s += x.name + "<-" + name(x.parent) + (x.q >= 0 ? mc::fmt("#%d ", x.q) : " "); return s;
    }
};
// every way to hook n segments to earlier ones; kinds are chosen from the menu; names do not follow the order of addition
inline TRef choose_tree(int n, const std::vector<int>& kinds) {
    static const char* names[] = {"d", "b", "e", "a", "c", "f", "g"};
    TRef t;
    for (int i = 0; i < n; i++) {
        int p = mc::choose(i + 1, "parent") - 1;
        Seg g = menu()[kinds[mc::choose((int)kinds.size(), "segment kind")]];
        g.name = names[i % 7]; if (i >= 7) g.name += mc::fmt("%d", i);
        t.add(g, p);
    }
    return t;
}
// one kind pattern, every shape
inline TRef choose_shape(int n, const std::vector<int>& kinds) {
    static const char* names[] = {"d", "b", "e", "a", "c", "f", "g"};
    TRef t; int off = mc::choose((int)kinds.size(), "kind pattern");
    for (int i = 0; i < n; i++) {
        int p = mc::choose(i + 1, "parent") - 1;
        Seg g = menu()[kinds[(i + off) % kinds.size()]];
        g.name = names[i % 7]; if (i >= 7) g.name += mc::fmt("%d", i);
        t.add(g, p);
    }
    return t;
}
}  // namespace kin
