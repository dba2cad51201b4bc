#include "wsim.hpp"

#include <algorithm>

namespace sim
{

// ------------------------------------------------------------------------- oracles
void WSim::checkRefs()
{
    auto& w = *world;

    std::set<const simu::Body*>              bodies;
    std::set<const simu::Constraint*>        cons;
    std::set<const simu::ContactConstraint*> contacts;
    std::set<const simu::Collider*>          cols;
    std::set<const simu::ForceField*>        ffs;

    std::size_t nBodies = 0;
    for (simu::Body& b : w.bodies())
    {
        ++nBodies;
        if (!bodies.insert(&b).second)
            ctx.violate("refs:duplicate", "a body is listed twice by the world");
        for (const simu::Collider& c : b.colliders())
        {
            cols.insert(&c);
            if (c.body() != &b)
                ctx.violate("refs:collider-owner", "a collider of a body refers to another body");
        }
    }
    std::set<const simu::Body*> want;
    for (const Obj& x : objs)
        if (x.kind == KBody && x.exists && x.listed)
            want.insert(x.body);
    if (bodies != want)
        ctx.violate("refs:bodies", fmt("the world lists %zu bodies, %zu exist", bodies.size(), want.size()));

    std::map<const simu::Body*, std::multiset<const simu::Constraint*>>        wantCons;
    std::map<const simu::Body*, std::multiset<const simu::ContactConstraint*>> wantCts;

    for (simu::Constraint& c : w.constraints())
    {
        if (!cons.insert(&c).second)
            ctx.violate("refs:duplicate", "a constraint is listed twice by the world");
        for (simu::Body* b : c.bodies())
        {
            if (bodies.count(b) == 0)
                ctx.violate("refs:constraint-body", "a constraint of the world refers to a body that is not in the world");
            wantCons[b].insert(&c);
        }
    }
    std::set<const simu::Constraint*> wc;
    for (const Obj& x : objs)
        if (x.kind == KCon && x.exists && x.listed)
            wc.insert(x.con);
    if (cons != wc)
        ctx.violate("refs:constraints", fmt("the world lists %zu constraints, %zu exist", cons.size(), wc.size()));

    for (simu::ForceField& f : w.forceFields())
        ffs.insert(&f);
    std::set<const simu::ForceField*> wf;
    for (const Obj& x : objs)
        if (x.kind == KFF && x.exists && x.listed)
            wf.insert(x.ff);
    if (ffs != wf)
        ctx.violate("refs:forcefields", fmt("the world lists %zu force fields, %zu exist", ffs.size(), wf.size()));

    for (simu::ContactConstraint& c : w.contacts())
    {
        if (!contacts.insert(&c).second)
            ctx.violate("refs:duplicate", "a contact is listed twice by the world");
        for (simu::Body* b : c.bodies())
        {
            if (bodies.count(b) == 0)
                ctx.violate("refs:contact-body", "a contact of the world refers to a body that is not in the world");
            wantCts[b].insert(&c);
        }
        if (!c.isDead())
        {
            for (int i = 0; i < 2; ++i)
            {
                if (cols.count(c.colliders()[i]) == 0)
                    ctx.violate("refs:contact-collider", "a live contact refers to a collider that is not in the world");
                else if (c.colliders()[i]->body() != c.bodies()[simu::Uint32(i)])
                    ctx.violate("refs:contact-collider", "a contact's collider is not its body's");
            }
        }
    }
    if (tracked)
    {
        std::set<const simu::ContactConstraint*> wk;
        for (const Obj& x : objs)
            if (x.kind == KContact && x.exists)
                wk.insert(x.contact);
        if (contacts != wk)
            ctx.violate("refs:contacts", fmt("the world lists %zu contacts, %zu exist", contacts.size(), wk.size()));
    }

    for (simu::Body& b : w.bodies())
    {
        std::multiset<const simu::Constraint*>        gc;
        std::multiset<const simu::ContactConstraint*> gk;
        for (simu::Constraint* c : b.constraints())
            gc.insert(c);
        for (simu::ContactConstraint* c : b.contacts())
            gk.insert(c);
        if (gc != wantCons[&b])
            ctx.violate("refs:body-constraints", fmt("a body lists %zu constraints, the world has %zu acting on it", gc.size(), wantCons[&b].size()));
        if (gk != wantCts[&b])
            ctx.violate("refs:body-contacts", fmt("a body lists %zu contacts, the world has %zu acting on it", gk.size(), wantCts[&b].size()));
    }
    ctx.count("checks.refs");
}

void WSim::checkContacts()
{
    struct Pair
    {
        int  alive = 0, dead = 0;
        bool ended = false, spared = false; // killed by the engine, dead otherwise
    };
    std::map<std::pair<const simu::Collider*, const simu::Collider*>, Pair> have;
    auto key = [](const simu::Collider* a, const simu::Collider* b) {
        return a < b ? std::make_pair(a, b) : std::make_pair(b, a);
    };
    for (simu::ContactConstraint& c : world->contacts())
    {
        auto& p = have[key(c.colliders()[0], c.colliders()[1])];
        if (c.isDead())
            ++p.dead;
        else
            ++p.alive;
    }
    for (const Obj& x : objs)
        if (x.kind == KContact && x.exists && dead(x.id))
        {
            bool byEngine = x.killed && x.nKillReq == 0 && !x.cond && !dead(x.b[0]) && !dead(x.b[1]);
            const SimContact* c = static_cast<const SimContact*>(x.contact);
            auto              it = have.find(key(c->c0, c->c1));
            if (it != have.end())
                (byEngine ? it->second.ended : it->second.spared) = true;
        }

    std::vector<std::pair<int, const simu::Collider*>> cols;
    for (const Obj& x : objs)
        if (x.kind == KBody && x.exists && x.body != nullptr)
            for (const simu::Collider& c : x.body->colliders())
                cols.push_back({x.id, &c});

    std::size_t nOver = 0;
    for (std::size_t i = 0; i < cols.size(); ++i)
        for (std::size_t j = i + 1; j < cols.size(); ++j)
        {
            int a = cols[i].first, b = cols[j].first;
            auto it = have.find(key(cols[i].second, cols[j].second));
            Pair p;
            if (it != have.end())
            {
                p = it->second;
                have.erase(it);
            }
            if (a == b)
            {
                if (p.alive > 0) // (dead ones may refer to colliders that are gone)
                    ctx.violate("contacts:same-body", "a contact joins two colliders of one body");
                continue;
            }
            BoundingBox ba = cols[i].second->boundingBox(), bb = cols[j].second->boundingBox();
            bool        over = ba.min()[0] <= bb.max()[0] && bb.min()[0] <= ba.max()[0]
                        && ba.min()[1] <= bb.max()[1] && bb.min()[1] <= ba.max()[1];
            if (p.alive > 1)
                ctx.violate("contacts:duplicate", fmt("bodies %d and %d have %d live contacts for one collider pair", a, b, p.alive));
            if (tainted.count(a) || tainted.count(b))
                continue;
            if (p.dead > 0 && p.alive == 0 && (p.spared || !p.ended))
            {
                ctx.count("reach.deadContactPair");
                continue;
            }
            bool disabled = o(a).structural && o(b).structural;
            bool jointDead = false;
            for (const Obj& c : objs)
                if (c.kind == KCon && c.exists && c.listed && c.con->disablesContacts()
                    && ((c.b[0] == a && c.b[1] == b) || (c.b[0] == b && c.b[1] == a)))
                {
                    disabled = true;
                    if (dead(c.id))
                        jointDead = true;
                }
            if (disabled)
                ctx.count("reach.disabledOverlap", over);
            bool want = over && !disabled;
            if (over && disabled && (jointDead || (o(a).structural && o(b).structural)))
                continue;
            if (over)
                ++nOver;
            if (want && p.alive != 1)
                ctx.violate("contacts:missing", fmt("bodies %d and %d overlap but have no contact", a, b));
            if (!want && p.alive != 0)
                ctx.violate("contacts:extra", fmt("bodies %d and %d have a live contact but %s", a, b, over ? "a joint disables it" : "do not overlap"));
        }
    for (auto& [k, p] : have)
        if (p.alive > 0)
            ctx.violate("contacts:unknown-collider", "a live contact refers to a collider that no body has");
    ctx.count("checks.contacts");
    ctx.count("reach.overlaps", i64(nOver));
}

void WSim::compareProxies(int id, const simu::Proxies& p)
{
    SimScope sc;
    for (int i = 0; i < 2; ++i)
    {
        int b = o(id).b[i] >= 0 ? o(id).b[i] : o(id).b[0];
        if (b < 0 || !o(b).exists)
            continue;
        const simu::Body* body = o(b).body;
        auto              q    = p[simu::Uint32(i)];
        if (q.position()[0] != body->position()[0] || q.position()[1] != body->position()[1]
            || q.orientation() != body->orientation() || q.velocity()[0] != body->velocity()[0]
            || q.velocity()[1] != body->velocity()[1] || q.angularVelocity() != body->angularVelocity())
            ctx.violate("solve:proxies", fmt("constraint %d is prepared with a state that is not body %d's", id, b));
        double im = i == 0 ? p.invMasses().m0 : p.invMasses().m1;
        double iI = i == 0 ? p.invMasses().I0 : p.invMasses().I1;
        double d  = o(id).b[1] < 0 ? 1.0 : double(body->dominance());
        if (nCols(body) > 0
            && (std::abs(im - d * body->invMass()) > 1e-5 * (std::abs(im) + d * body->invMass())
                || std::abs(iI - d * body->invInertia()) > 1e-5 * (std::abs(iI) + d * body->invInertia())))
            ctx.violate("solve:mass", fmt("constraint %d is prepared with a mass that is not body %d's", id, b));
    }
}

void WSim::checkFinite()
{
    for (const Obj& x : objs)
        if (x.kind == KBody && x.exists && x.listed && solid(x.id))
        {
            const simu::Body* b = x.body;
            if (!std::isfinite(b->position()[0]) || !std::isfinite(b->position()[1])
                || !std::isfinite(b->orientation()) || !std::isfinite(b->velocity()[0])
                || !std::isfinite(b->velocity()[1]) || !std::isfinite(b->angularVelocity()))
                ctx.violate("state:not-finite", fmt("body %d has a state that is not finite", x.id));
        }
}

void WSim::signature()
{
    u64 sig = 1;
    for (const Obj& x : objs)
        if (x.kind == KBody && x.exists && x.body != nullptr)
        {
            u64 nk = 0, nc = 0;
            for (auto* c : x.body->contacts())
            {
                (void)c;
                ++nk;
            }
            for (auto* c : x.body->constraints())
            {
                (void)c;
                ++nc;
            }
            sig = mixHash(sig, nCols(x.body) * 4096 + nk * 64 + nc * 4 + (x.structural ? 2 : 0) + (dead(x.id) ? 1 : 0));
        }
    sig = mixHash(sig, living(KFF).size());
    ctx.state(sig);
}

} // namespace sim
