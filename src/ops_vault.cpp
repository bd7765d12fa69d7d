#include "ops.hpp"
namespace mc
{
    namespace ops
    {
        // ------------------------------------------------------------- whole vaults
        inline void modelCopy(Model& m, int a, int b)
        {
            m.dropVault(b); m.v[b].keys = m.v[a].keys; m.v[b].alive = true; auto ids = m.v[a].recs;
            for (int id : ids) { int n = m.next++; m.recs[n] = MRec{b, m.recs[id].data, ""}; m.v[b].recs.insert(n); }
        }
        inline void modelMove(Model& m, int a, int b)
        {
            m.dropVault(b); m.v[b].alive = true; m.v[b].keys = m.v[a].keys; m.v[b].recs = m.v[a].recs;
            for (int id : m.v[b].recs) { m.recs[id].vault = b; }
            for (auto& s : m.s) if (s.exists && s.parent == a) s.parent = b;
            m.v[a].keys.clear(); m.v[a].recs.clear();
        }
        Op copyAssign(int a, int b)
        {
            return {N("v", b) + "=" + N("v", a), [=](const Model& m) { return m.v[a].alive && m.v[b].alive; }, [=](World& w, Model& m)
            {
                *w.v[b] = *w.v[a]; if (a == b) return; modelCopy(m, a, b); bindByContent(w, m, b);
            }};
        }
        Op copyCtor(int a, int b)   // v_b is replaced by a freshly copy-constructed vault
        {
            return {N("v", b) + "=new Vault(" + N("v", a) + ")", [=](const Model& m) { return a != b && m.v[a].alive; }, [=](World& w, Model& m)
            {
                std::unique_ptr<Vault> n(new Vault(*w.v[a])); w.v[b] = std::move(n); modelCopy(m, a, b); bindByContent(w, m, b);
            }};
        }
        Op moveAssign(int a, int b)
        {
            return {N("v", b) + "=move(" + N("v", a) + ")", [=](const Model& m) { return m.v[a].alive && m.v[b].alive; }, [=](World& w, Model& m)
            {
                Vault& src = *w.v[a]; *w.v[b] = std::move(src); if (a != b) modelMove(m, a, b);
            }};
        }
        Op moveCtor(int a, int b)
        {
            return {N("v", b) + "=new Vault(move(" + N("v", a) + "))", [=](const Model& m) { return a != b && m.v[a].alive; }, [=](World& w, Model& m)
            {
                std::unique_ptr<Vault> n(new Vault(std::move(*w.v[a]))); w.v[b] = std::move(n); modelMove(m, a, b);
            }};
        }

    }
}
