// Real pose graph driven next to a plain reference model.
#pragma once
#include "mc.h"
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>

struct World {
  typedef Slam2d_Policy P;
  typedef slamuk::Graph<P, int> G;
  typedef G::E E;
  typedef G::N N;
  struct MEdge {
    bool live;
    size_t from, to;
    int tag;
    int state, type;
    bool used;
    const void *addr;
  };
  struct MNode {
    int tag;
    bool visited;
    Eigen::Vector3d pose;
    const void *addr;
  };
  mc::Ctx &c;
  G g;
  std::vector<MEdge> edges;
  std::vector<MNode> nodes;
  std::vector<size_t> freed;  // in order of removal
  int tags = 0;
  size_t hist = 0;

  explicit World(mc::Ctx &ctx) : c(ctx)
  {
  }
  static P::Pose poseOf(int tag)
  {
    return P::Pose(tag * 0.5 + 0.25, -tag * 1.5, 0.01 * tag);
  }
  static P::InformMatrix infoOf(int tag)
  {
    P::InformMatrix m;
    m << tag + 1, 0.5, 0.25, 0.5, tag + 2, 0.125, 0.25, 0.125, tag + 3;
    return m;
  }
  size_t liveEdges() const
  {
    size_t n = 0;
    for (auto &e : edges)
      n += e.live;
    return n;
  }
  size_t addNode()
  {
    int t = tags++;
    c.say("addNode #%d", t);
    c.scribble();
    size_t id = g.addNode(N(poseOf(t), t));
    c.step();
    c.check(id == nodes.size(), "addNode returned id %zu, expected %zu", id, nodes.size());
    nodes.push_back({t, false, poseOf(t), &g.getNode(id)});
    return id;
  }
  size_t addEdge(size_t i, size_t j)
  {
    int t = tags++;
    c.say("addEdge %zu->%zu #%d", i, j, t);
    c.scribble();
    size_t id = g.addEdge(E(&g.getNode(i), &g.getNode(j), poseOf(t), infoOf(t)));
    c.step();
    if (freed.empty())
      c.check(id == edges.size(), "addEdge returned id %zu, expected fresh id %zu", id,
              edges.size());
    else {
      auto it = std::find(freed.begin(), freed.end(), id);
      c.check(it != freed.end(), "addEdge returned id %zu although freed ids are available", id);
      freed.erase(it);
    }
    MEdge m{true, i, j, t, (int)E::CONSTRUCTED, (int)E::ODOM, false, nullptr};
    if (id == edges.size())
      edges.push_back(m);
    else
      edges[id] = m;
    edges[id].addr = &g.getEdge(id);
    return id;
  }
  void removeEdge(size_t id)
  {
    c.say("removeEdge %zu", id);
    c.scribble();
    bool r = g.removeEdge(id);
    c.step();
    bool live = id < edges.size() && edges[id].live;
    c.check(r == live, "removeEdge(%zu) returned %d, edge is %s", id, (int)r,
            live ? "live" : "not live");
    if (live) {
      edges[id].live = false;
      freed.push_back(id);
    }
  }
  // structure only; payload tags do not steer the graph
  uint64_t hash() const
  {
    mc::Hash h;
    h.add(nodes.size());
    for (auto &e : edges)
      h.add(e.live ? 1 + e.from * 64 + e.to : 0).add(e.live ? e.state * 8 + e.type * 2 + e.used : 0);
    for (auto f : freed)
      h.add(f + 1000);
    return h.h;
  }

  // --------------------------------------------------------------- oracles
  void checkLookup()
  {
    c.check(g.nodeCount() == nodes.size(), "nodeCount %zu, expected %zu", g.nodeCount(),
            nodes.size());
    c.check(g.edgeCount() == liveEdges(), "edgeCount %zu, expected %zu", g.edgeCount(),
            liveEdges());
    const G &cg = g;
    for (size_t i = 0; i < nodes.size() + 3; ++i) {
      if (i < nodes.size()) {
        N &n = g.getNode(i);
        c.check(&n == nodes[i].addr && &cg.getNode(i) == nodes[i].addr,
                "node %zu is a different object than the one stored", i);
        c.check(n.getId() == i, "node %zu reports id %zu", i, n.getId());
        c.check(n.getDataObj() == nodes[i].tag && cg.getNode(i).getDataObj() == nodes[i].tag,
                "node %zu lost its data", i);
        c.check(n.getPose() == nodes[i].pose, "node %zu lost its pose", i);
        c.check(n.isVisited() == nodes[i].visited, "node %zu lost its visited mark", i);
      } else {
        int thrown = 0;
        try {
          g.getNode(i);
        } catch (const std::exception &) {
          ++thrown;
        }
        try {
          cg.getNode(i);
        } catch (const std::exception &) {
          ++thrown;
        }
        c.check(thrown == 2, "lookup of unknown node %zu does not fail", i);
      }
    }
    for (size_t i = 0; i < edges.size() + 3; ++i) {
      if (i < edges.size() && edges[i].live) {
        const MEdge &m = edges[i];
        E &e = g.getEdge(i);
        const E &ce = cg.getEdge(i);
        c.check(&e == m.addr && &ce == m.addr,
                "edge %zu is a different object than the one stored", i);
        c.check(e.getId() == i, "edge %zu reports id %zu", i, e.getId());
        c.check(e.getFrom() == nodes[m.from].addr && e.getTo() == nodes[m.to].addr,
                "edge %zu does not connect %zu->%zu", i, m.from, m.to);
        c.check(e.getFrom()->getId() == m.from && e.getTo()->getId() == m.to,
                "edge %zu end ids wrong", i);
        c.check(e.getTransform() == poseOf(m.tag), "edge %zu lost its transform", i);
        c.check(e.getInformationMatrix() == infoOf(m.tag), "edge %zu lost its information", i);
        c.check((int)e.getState() == m.state && (int)e.getType() == m.type && e.isUsed() == m.used,
                "edge %zu lost its state", i);
      } else {
        int thrown = 0;
        try {
          g.getEdge(i);
        } catch (const std::exception &) {
          ++thrown;
        }
        try {
          cg.getEdge(i);
        } catch (const std::exception &) {
          ++thrown;
        }
        c.check(thrown == 2, "lookup of dead or unknown edge %zu does not fail", i);
      }
    }
  }

  template <class It, class Get>
  void walk(It b, It e, const std::vector<size_t> &ids, Get get, const char *what, bool post)
  {
    It it = b;
    size_t k = 0;
    while (it != e) {
      c.check(k < ids.size(), "%s: more elements than live ones", what);
      c.check(!(it == e), "%s: == and != disagree", what);
      const void *p = it.operator->();
      c.check(p == &*it, "%s: -> and * disagree", what);
      c.check(p == get(ids[k]), "%s: position %zu is not element %zu", what, k, ids[k]);
      It before = it;
      if (post) {
        It old = it++;
        c.check(old == before, "%s: it++ does not return the old position", what);
      } else {
        It now = ++it;
        c.check(now == it, "%s: ++it does not return the new position", what);
      }
      c.check(before != it, "%s: iterator did not advance", what);
      c.check(before.operator->() == p, "%s: advancing a copy moved the original", what);
      ++k;
    }
    c.check(it == e, "%s: == and != disagree at the end", what);
    c.check(k == ids.size(), "%s: visited %zu of %zu elements", what, k, ids.size());
  }
  void checkIteration()
  {
    std::vector<size_t> nid, eid;
    for (size_t i = 0; i < nodes.size(); ++i)
      nid.push_back(i);
    for (size_t i = 0; i < edges.size(); ++i)
      if (edges[i].live)
        eid.push_back(i);
    auto gn = [&](size_t i) -> const void * { return nodes[i].addr; };
    auto ge = [&](size_t i) -> const void * { return edges[i].addr; };
    for (int post = 0; post < 2; ++post) {
      c.scribble();
      walk(g.beginEdge(), g.endEdge(), eid, ge, post ? "edges it++" : "edges ++it", post);
      walk(g.cbeginEdge(), g.cendEdge(), eid, ge, post ? "const edges it++" : "const edges ++it",
           post);
      walk(g.beginNode(), g.endNode(), nid, gn, post ? "nodes it++" : "nodes ++it", post);
      walk(g.cbeginNode(), g.cendNode(), nid, gn, post ? "const nodes it++" : "const nodes ++it",
           post);
    }
  }
  void checkIncidence()
  {
    for (size_t i = 0; i < nodes.size(); ++i) {
      std::multiset<const void *> in, out, ein, eout;
      for (auto *e : g.getNode(i).getEdgesIn())
        in.insert(e);
      for (auto *e : g.getNode(i).getEdgesOut())
        out.insert(e);
      for (auto &e : edges)
        if (e.live) {
          if (e.to == i)
            ein.insert(e.addr);
          if (e.from == i)
            eout.insert(e.addr);
        }
      c.check(in == ein, "node %zu: %zu incoming edges listed, %zu live ones end here", i,
              in.size(), ein.size());
      c.check(out == eout, "node %zu: %zu outgoing edges listed, %zu live ones start here", i,
              out.size(), eout.size());
    }
  }
};

// One operation of the alphabet.  max_nodes/max_slots bound the state.
inline bool graph_op(mc::Ctx &c, World &w, size_t max_nodes, size_t max_slots, bool marks)
{
  std::vector<int> kinds;
  size_t n = w.nodes.size();
  bool can_node = n < max_nodes;
  bool can_edge = n > 0 && (w.edges.size() < max_slots || !w.freed.empty());
  size_t nadd = can_edge ? n * n : 0;
  size_t nrem = w.edges.size() + 2;  // every slot, one past the end, far away
  size_t nmark = marks ? w.liveEdges() * 3 + n * 2 : 0;
  size_t total = (can_node ? 1 : 0) + nadd + nrem + nmark;
  size_t k = c.choose((int)total, "op");
  if (can_node) {
    if (k == 0) {
      w.addNode();
      return true;
    }
    --k;
  }
  if (k < nadd) {
    w.addEdge(k / n, k % n);
    return true;
  }
  k -= nadd;
  if (k < nrem) {
    w.removeEdge(k + 1 < nrem ? k : w.edges.size() + 77);
    return true;
  }
  k -= nrem;
  size_t le = w.liveEdges();
  if (k < le * 3) {
    size_t which = k / 3, i = 0;
    for (; i < w.edges.size(); ++i)
      if (w.edges[i].live && which-- == 0)
        break;
    World::E &e = w.g.getEdge(i);
    if (k % 3 == 0) {
      w.edges[i].state = (w.edges[i].state + 1) % 4;
      c.say("setState(%zu, %d)", i, w.edges[i].state);
      e.setState((World::E::State)w.edges[i].state);
    } else if (k % 3 == 1) {
      w.edges[i].type ^= 1;
      c.say("setType(%zu, %d)", i, w.edges[i].type);
      e.setType((World::E::Type)w.edges[i].type);
    } else {
      w.edges[i].used = !w.edges[i].used;
      c.say("setUsed(%zu, %d)", i, w.edges[i].used);
      e.setUsed(w.edges[i].used);
    }
    c.step();
    return true;
  }
  k -= le * 3;
  size_t i = k / 2;
  if (k % 2 == 0) {
    w.nodes[i].visited = !w.nodes[i].visited;
    c.say("setVisited(%zu, %d)", i, w.nodes[i].visited);
    w.g.getNode(i).setVisited(w.nodes[i].visited);
  } else {
    w.nodes[i].pose += Eigen::Vector3d(1, -1, 0);
    c.say("setPose(%zu)", i);
    w.g.getNode(i).setPose(w.nodes[i].pose);
  }
  c.step();
  return true;
}

enum { LOOKUP = 1, ITER = 2, INC = 4 };
inline void graph_oracle(World &w, int what)
{
  if (what & LOOKUP)
    w.checkLookup();
  if (what & ITER)
    w.checkIteration();
  if (what & INC)
    w.checkIncidence();
}

// every history, no state merging
inline void graph_tree(mc::Ctx &c, int what, int start_nodes, int depth, bool marks)
{
  World w(c);
  for (int i = 0; i < start_nodes; ++i)
    w.addNode();
  graph_oracle(w, what);
  for (int d = 0; d < depth; ++d) {
    graph_op(c, w, start_nodes + 1, 5, marks);
    if (c.fresh()) {
      graph_oracle(w, what);
      c.state(w.hash());
    }
  }
}
// deeper histories, histories that reach the same abstract state continue once
inline void graph_merged(mc::Ctx &c, int what, int max_nodes, int max_slots, int depth)
{
  World w(c);
  w.addNode();
  for (int d = 0; d < depth; ++d) {
    graph_op(c, w, max_nodes, max_slots, false);
    if (c.fresh()) {
      graph_oracle(w, what);
      c.state(w.hash());
    }
    c.merge(w.hash(), depth - d);
  }
}
// chain of n edges: every subset removed, in three orders, then k added back
inline void graph_subsets(mc::Ctx &c, int what, int n)
{
  World w(c);
  int order = c.choose(3, "order");
  int refill = c.choose(4, "refill");
  for (int i = 0; i <= n; ++i)
    w.addNode();
  for (int i = 0; i < n; ++i)
    w.addEdge(i, i + 1);
  w.addEdge(n, 0);  // loop closure
  std::vector<int> sub;
  for (int i = 0; i <= n; ++i)
    if (c.flip("remove"))
      sub.push_back(i);
  if (order == 1)
    std::reverse(sub.begin(), sub.end());
  if (order == 2)
    for (size_t i = 0; i + 1 < sub.size(); i += 2)
      std::swap(sub[i], sub[i + 1]);
  for (int s : sub)
    w.removeEdge(s);
  graph_oracle(w, what);
  c.state(w.hash());
  size_t k = refill == 0 ? 0 : refill == 1 ? 1 : refill == 2 ? sub.size() : sub.size() + 2;
  for (size_t i = 0; i < k; ++i) {
    w.addEdge((i * 5) % (n + 1), (i * 3 + 1) % (n + 1));
    if (i < 3 || i + 3 > k)
      graph_oracle(w, what);
  }
  if (refill == 3) {
    w.removeEdge(0);
    w.removeEdge(n);
    w.removeEdge(n / 2);
    graph_oracle(w, what);
    w.addNode();
    w.addEdge(n + 1, 0);
  }
  graph_oracle(w, what);
  c.state(w.hash());
}
// growth: storage reallocates many times while references are held
inline void graph_growth(mc::Ctx &c, int what, int maxn)
{
  static const std::vector<int> sizes_q = {1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 129};
  static const std::vector<int> strides = {1, 2, 3, 7};
  int n = c.pick(sizes_q, "size");
  if (n > maxn)
    throw mc::Prune();
  int stride = c.pick(strides, "stride");
  int hub = c.choose(3, "shape");  // chain, star in, star out
  bool again = c.flip("refill");
  World w(c);
  w.addNode();
  for (int i = 1; i <= n; ++i) {
    w.addNode();
    if (hub == 0)
      w.addEdge(i - 1, i);
    else if (hub == 1)
      w.addEdge(i, 0);
    else
      w.addEdge(0, i);
  }
  graph_oracle(w, what);
  for (int i = 0; i < n; i += stride)
    w.removeEdge(i);
  graph_oracle(w, what);
  c.state(w.hash());
  if (again) {
    for (int i = 0; i < n; ++i)
      w.addEdge(n - i, i / 2);
    graph_oracle(w, what);
    for (int i = n - 1; i >= 0; i -= stride)
      w.removeEdge(i);
    graph_oracle(w, what);
    c.state(w.hash());
  }
}
