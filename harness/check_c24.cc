// C24: profile trees account for every sample exactly once.
#include <string.h>

#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "pbt.h"
#include "ruy/profiler/instrumentation.h"
#include "ruy/profiler/treeview.h"

namespace {

using ruy::profiler::Label;
using ruy::profiler::TreeView;
using Node = TreeView::Node;

constexpr char kOther[] = "[other]";

struct L {
  std::string format;
  std::vector<int> args;

  std::string Formatted() const {
    char buf[256];
    const char* f = format.c_str();
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
    switch (args.size()) {
      case 0:
        return format;
      case 1:
        snprintf(buf, sizeof buf, f, args[0]);
        break;
      case 2:
        snprintf(buf, sizeof buf, f, args[0], args[1]);
        break;
      case 3:
        snprintf(buf, sizeof buf, f, args[0], args[1], args[2]);
        break;
      default:
        snprintf(buf, sizeof buf, f, args[0], args[1], args[2], args[3]);
    }
#pragma GCC diagnostic pop
    return buf;
  }
  bool operator<(const L& o) const {
    return format != o.format ? format < o.format : args < o.args;
  }
  bool operator==(const L& o) const {
    return format == o.format && args == o.args;
  }
};

struct Sample {
  unsigned thread;
  std::vector<L> stack;
};

// Label objects keep pointers to formats: these stay for ever, each text at
// several addresses.
const char* Format(const std::string& s, int copy) {
  static auto* all = new std::map<std::pair<std::string, int>, char*>;
  char*& p = (*all)[{s, copy}];
  if (!p) p = strdup(s.c_str());
  return p;
}

void SetLabel(Label* label, const L& l, int copy) {
  const char* f = Format(l.format, copy);
  switch (l.args.size()) {
    case 0:
      label->Set(f);
      break;
    case 1:
      label->Set(f, l.args[0]);
      break;
    case 2:
      label->Set(f, l.args[0], l.args[1]);
      break;
    case 3:
      label->Set(f, l.args[0], l.args[1], l.args[2]);
      break;
    default:
      label->Set(f, l.args[0], l.args[1], l.args[2], l.args[3]);
  }
}

// ---------------------------------------------------------------------------
// The expected tree.
struct Model {
  int weight = 0;
  std::map<L, Model> children;

  int Depth() const {
    int d = 0;
    for (const auto& c : children) d = std::max(d, 1 + c.second.Depth());
    return d;
  }
};

// Compares a tree with what is expected. `collapse` is the number of levels
// that remain, or -1; `match` decides where collapsing starts.
using Match = std::function<bool(const L&)>;

std::string Path(const std::vector<std::string>& path) {
  std::string s;
  for (const std::string& p : path) s += "/" + p;
  return s;
}

std::string Compare(const Node& n, const Model& m, int collapse, int depth,
                    const Match& match, std::vector<std::string>* path) {
  if (n.weight != m.weight) {
    return pbt::Format("%s: weight %d, not %d", Path(*path).c_str(), n.weight,
                       m.weight);
  }
  if (collapse == 0) {
    return n.children.empty() ? ""
                              : Path(*path) + ": children below the depth";
  }
  int sum = 0, others = 0, previous = 1 << 30;
  std::map<std::string, int> seen;
  for (const auto& c : n.children) {
    if (c->weight > previous) return Path(*path) + ": children out of order";
    if (c->weight <= 0) return Path(*path) + ": a child without weight";
    previous = c->weight;
    sum += c->weight;
    if (std::string(c->label.format()) == kOther) {
      ++others;
      if (!c->children.empty()) return Path(*path) + ": children of others";
      continue;
    }
    // The child of the model with this label.
    const Model* cm = nullptr;
    const L* cl = nullptr;
    for (const auto& k : m.children) {
      Label want;
      SetLabel(&want, k.first, 0);
      if (c->label == want && c->label.Formatted() == k.first.Formatted() &&
          std::string(c->label.format()) == k.first.format) {
        cm = &k.second;
        cl = &k.first;
        break;
      }
    }
    if (!cm) {
      return Path(*path) + ": unexpected child " + c->label.Formatted();
    }
    const std::string key =
        cl->format + pbt::Format("|%d|", static_cast<int>(cl->args.size())) +
        cl->Formatted();
    if (seen[key]++) return Path(*path) + ": child twice: " + key;
    path->push_back(c->label.Formatted());
    int below = collapse > 0 ? collapse - 1 : -1;
    if (collapse < 0 && match && match(*cl)) below = depth;
    std::string e = Compare(*c, *cm, below, depth, match, path);
    path->pop_back();
    if (!e.empty()) return e;
  }
  if (static_cast<int>(n.children.size()) - others !=
      static_cast<int>(m.children.size())) {
    return pbt::Format("%s: %d children, not %d", Path(*path).c_str(),
                       static_cast<int>(n.children.size()) - others,
                       static_cast<int>(m.children.size()));
  }
  if (others > 1) return Path(*path) + ": others twice";
  if (!m.children.empty() && sum != m.weight) {
    return pbt::Format("%s: children weigh %d, not %d", Path(*path).c_str(),
                       sum, m.weight);
  }
  return "";
}

// Finds a node for a path of labels; null if it is not there.
const Node* Find(const Node* n, const std::vector<L>& path, std::size_t k) {
  for (std::size_t i = 0; i < k; ++i) {
    Label want;
    SetLabel(&want, path[i], 1);
    const Node* next = nullptr;
    for (const auto& c : n->children) {
      if (c->label == want) next = c.get();
    }
    if (!next) return nullptr;
    n = next;
  }
  return n;
}

// A tree with something in it already.
void Litter(Node* n) {
  n->weight = 77;
  n->label.Set("old");
  n->children.emplace_back(new Node);
  n->children.back()->label.Set("older");
}

void Prop(pbt::Case& c) {
  // Labels.
  static const char* const kFormats0[] = {"a", "b", "Mul", "Kernel", "", "x y",
                                          "100%", "a 1"};
  static const char* const kFormats1[] = {"a %d", "level=%d", "%x", "Mul %d"};
  static const char* const kFormats2[] = {"a %d %d", "%d,%d"};
  static const char* const kFormats3[] = {"s=%d,%d,%d"};
  static const char* const kFormats4[] = {"(P=0x%x, t=%d, (%d,%d))", "a %d %d"
                                          " %d %d"};
  const int nlabels = static_cast<int>(c.range(1, 8));
  std::vector<L> labels;
  auto arg = [&] {
    return c.weighted({6, 1}) ? static_cast<int>(c.pick<std::int64_t>(
                                    {-1, INT32_MAX, INT32_MIN, 1000000}))
                              : static_cast<int>(c.draw(3));
  };
  for (int i = 0; i < nlabels; ++i) {
    L l;
    switch (c.weighted({4, 4, 2, 1, 2})) {
      case 0:
        l.format = kFormats0[c.draw(8)];
        break;
      case 1:
        l.format = kFormats1[c.draw(4)];
        l.args = {arg()};
        break;
      case 2:
        l.format = kFormats2[c.draw(2)];
        l.args = {arg(), arg()};
        break;
      case 3:
        l.format = kFormats3[0];
        l.args = {arg(), arg(), arg()};
        break;
      case 4:
        l.format = kFormats4[c.draw(2)];
        l.args = {arg(), arg(), arg(), arg()};
        break;
    }
    labels.push_back(l);
  }
  // Threads and samples.
  const int nthreads = static_cast<int>(c.range(1, 4));
  std::vector<unsigned> ids;
  for (int i = 0; i < nthreads; ++i) {
    ids.push_back(c.chance(1, 8) ? static_cast<unsigned>(c.pick<std::int64_t>(
                                       {4294967295, 2147483648, 2147483647}))
                                 : static_cast<unsigned>(c.draw(6)));
  }
  const int max_depth = c.pick<int>({3, 6, 1, 64});
  const int nsamples = static_cast<int>(
      c.weighted({8, 2, 1}) ? c.range(0, c.flag() ? 400 : 60) : c.range(0, 25));
  std::vector<Sample> samples;
  std::vector<int> copies;
  for (int i = 0; i < nsamples; ++i) {
    Sample s;
    s.thread = ids[c.draw(ids.size())];
    int depth;
    if (!samples.empty() && c.chance(1, 3)) {
      // Like an earlier one, up to some level.
      const Sample& o = samples[c.draw(samples.size())];
      s.stack = o.stack;
      s.stack.resize(c.range(1, s.stack.size()));
      depth = static_cast<int>(
          std::min<std::size_t>(max_depth, s.stack.size() + c.draw(3)));
    } else {
      depth = max_depth == 64 && c.chance(1, 3)
                  ? 64
                  : static_cast<int>(c.range(1, max_depth));
    }
    while (static_cast<int>(s.stack.size()) < depth) {
      s.stack.push_back(labels[c.draw(labels.size())]);
    }
    samples.push_back(s);
    copies.push_back(static_cast<int>(c.draw(3)));
  }
  std::string text = pbt::Format("%d samples, depth %d:", nsamples, max_depth);
  for (int i = 0; i < std::min(nsamples, 4); ++i) {
    text += pbt::Format(" %u", samples[i].thread);
    for (std::size_t k = 0; k < samples[i].stack.size() && k < 5; ++k) {
      text += "/" + samples[i].stack[k].Formatted();
    }
  }
  c.describe("%s", text.c_str());

  // Record and build.
  std::vector<char> buf;
  for (int i = 0; i < nsamples; ++i) {
    const Sample& s = samples[i];
    auto stack = std::unique_ptr<ruy::profiler::detail::Stack>(
        new ruy::profiler::detail::Stack);
    stack->id = s.thread;
    stack->size = static_cast<int>(s.stack.size());
    for (std::size_t k = 0; k < s.stack.size(); ++k) {
      SetLabel(&stack->labels[k], s.stack[k], copies[i]);
    }
    const std::size_t at = buf.size();
    buf.resize(at + ruy::profiler::detail::GetBufferSize(*stack));
    ruy::profiler::detail::CopyToBuffer(*stack, buf.data() + at);
  }
  TreeView view;
  if (c.chance(1, 4)) {
    // Used before.
    Node* n = new Node;
    Litter(n);
    (*view.mutable_thread_roots())[ids[0]].reset(n);
  }
  view.Populate(buf);
  if (c.chance(1, 6)) view.Populate(buf);

  std::map<unsigned, Model> models;
  for (const Sample& s : samples) {
    Model* m = &models[s.thread];
    m->weight++;
    for (const L& l : s.stack) {
      m = &m->children[l];
      m->weight++;
    }
  }
  auto compare_all = [&](const TreeView& v, int depth,
                         const Match& match) -> std::string {
    if (v.thread_roots().size() != models.size()) {
      return pbt::Format("%d threads, not %d",
                         static_cast<int>(v.thread_roots().size()),
                         static_cast<int>(models.size()));
    }
    for (const auto& r : v.thread_roots()) {
      if (!models.count(r.first)) return "unknown thread";
      char title[64];
      snprintf(title, sizeof title, "Thread %x (%d samples)", r.first,
               models[r.first].weight);
      if (r.second->label.Formatted() != title) {
        return "root label " + r.second->label.Formatted();
      }
      std::vector<std::string> path = {title};
      std::string e =
          Compare(*r.second, models[r.first], -1, depth, match, &path);
      if (!e.empty()) return e;
    }
    return "";
  };
  std::string e = compare_all(view, -1, nullptr);
  if (!e.empty()) c.fail("%s", e.c_str());

  if (nsamples == 0) return;
  // Queries below a node.
  for (int q = 0; q < 3; ++q) {
    const Sample& s = samples[c.draw(samples.size())];
    const std::size_t level = c.draw(s.stack.size() + 1);
    const Node* root = view.thread_roots().at(s.thread).get();
    const Node* node = Find(root, s.stack, level);
    if (!node) c.fail("a node is missing");
    const L& l = labels[c.draw(labels.size())];
    int by_format = 0, by_text = 0, all = 0;
    int depth = 0;
    for (const Sample& o : samples) {
      if (o.thread != s.thread || o.stack.size() < level) continue;
      if (!std::equal(s.stack.begin(), s.stack.begin() + level,
                      o.stack.begin())) {
        continue;
      }
      depth = std::max(depth, static_cast<int>(o.stack.size() - level));
      for (std::size_t k = level > 0 ? level - 1 : 0; k < o.stack.size(); ++k) {
        if (o.stack[k].format == l.format) ++by_format;
        if (o.stack[k].Formatted() == l.Formatted()) ++by_text;
        ++all;
      }
    }
    int got =
        ruy::profiler::WeightBelowNodeMatchingUnformatted(*node, l.format);
    if (got != by_format) {
      c.fail("weight of \"%s\" is %d, not %d", l.format.c_str(), got,
             by_format);
    }
    got = ruy::profiler::WeightBelowNodeMatchingFormatted(*node, l.Formatted());
    if (got != by_text) {
      c.fail("weight of %s is %d, not %d", l.Formatted().c_str(), got, by_text);
    }
    got = ruy::profiler::WeightBelowNodeMatchingFunction(
        *node, [](const Label& label) {
          const std::string f = label.format();
          return f != kOther && f.compare(0, 7, "Thread ") != 0;
        });
    if (got != all) c.fail("weight of all labels is %d, not %d", got, all);
    got = ruy::profiler::DepthOfTreeBelow(*node);
    if (got != depth) c.fail("depth is %d, not %d", got, depth);

    // Collapsing.
    const int keep = static_cast<int>(c.pick<int>({1, 0, 2, 3, 100}));
    Node out;
    if (c.flag()) Litter(&out);
    ruy::profiler::CollapseNode(*node, keep, &out);
    const Model* m = &models[s.thread];
    for (std::size_t k = 0; k < level; ++k) m = &m->children.at(s.stack[k]);
    std::vector<std::string> path = {"collapsed"};
    e = Compare(out, *m, keep, 0, nullptr, &path);
    if (!e.empty()) c.fail("%s", e.c_str());
    if (!(out.label == node->label)) c.fail("collapsed node's label");

    TreeView collapsed;
    if (c.flag()) {
      Node* n = new Node;
      Litter(n);
      (*collapsed.mutable_thread_roots())[12345].reset(n);
    }
    if (c.flag()) {
      ruy::profiler::CollapseNodesMatchingUnformatted(view, keep, l.format,
                                                      &collapsed);
      e = compare_all(collapsed, keep, [&](const L& o) {
        return o.format == l.format;
      });
    } else {
      ruy::profiler::CollapseNodesMatchingFormatted(view, keep, l.Formatted(),
                                                    &collapsed);
      e = compare_all(collapsed, keep, [&](const L& o) {
        return o.Formatted() == l.Formatted();
      });
    }
    if (!e.empty()) {
      c.fail("collapsed at \"%s\" to %d: %s", l.format.c_str(), keep,
             e.c_str());
    }
    // The original is as it was.
    e = compare_all(view, -1, nullptr);
    if (!e.empty()) c.fail("after collapsing: %s", e.c_str());
  }
  if (nsamples > 1 && models.size() > 0 && samples[0].stack.size() > 0) {
    c.nontrivial();
  }
  c.label(max_depth == 64 ? "deep" : "shallow");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Spec s;
  s.id = "C24";
  s.rule =
      "Generated collections of 0-400 samples of 1-4 threads with stacks of 1-"
      "64 labels (literal or formatted, equal texts at several addresses, "
      "recursion, shared prefixes): tree, weights below nodes, depths and "
      "collapsed trees against direct counts over the samples. Non-trivial: "
      "at least two samples.";
  s.parts = {{"trees", Prop, 30000, 800000}};
  return pbt::Main(argc, argv, s);
}
