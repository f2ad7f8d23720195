import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mk
src = open('/verif/tools/seeds4.py').read()
exec(src[:src.index('OTR = ')])
VOR = '''
#include <set>
typedef uint64_t T;
struct Out { Vector<T> u, v, w; T delta; };
// history of operations: p<n> precomputation with delta, r<n> run
static bool history(std::vector<std::pair<char, int64_t>> ops, std::vector<Out>& out, std::vector<T> deltas) {
  out.assign(ops.size(), Out());
  return both<T>([&](comm_channel* c) { auto p = get(DistributedVectorOLE<T>::Create(c, 20));
      for (size_t i = 0; i < ops.size(); i++) { if (ops[i].first == 'p') { okay(p->PrecomputeSender(ops[i].second)); continue; }
        auto r = get(p->RunSender(ops[i].second)); out[i].u = r.u; out[i].v = r.v; } },
    [&](comm_channel* c) { auto p = get(DistributedVectorOLE<T>::Create(c, 20));
      for (size_t i = 0; i < ops.size(); i++) { if (ops[i].first == 'p') { okay(p->PrecomputeReceiver(ops[i].second, deltas[i])); continue; }
        auto r = get(p->RunReceiver(ops[i].second)); out[i].w = r.w; out[i].delta = r.delta; } });
}
static int relation(std::vector<std::pair<char, int64_t>> ops) {
  std::vector<T> d;
  for (size_t i = 0; i < ops.size(); i++) d.push_back(0x9e3779b97f4a7c15u * (i + 1));
  std::vector<Out> o;
  if (!history(ops, o, d)) NO("a party fails");
  int last = -1;
  for (size_t i = 0; i < ops.size(); i++) {
    if (ops[i].first == 'p') { last = i; continue; }
    if (o[i].u.size() != ops[i].second || o[i].v.size() != ops[i].second || o[i].w.size() != ops[i].second) NO("operation %zu: length", i);
    if (last >= 0 && o[i].delta != d[last]) NO("operation %zu: delta", i);
    for (int64_t j = 0; j < ops[i].second; j++) if (o[i].w[j] != o[i].u[j] * o[i].delta + o[i].v[j]) NO("operation %zu position %ld: w is not u*delta+v", i, (long)j);
  }
  return 0;
}
static int fresh(std::vector<std::pair<char, int64_t>> ops) {
  std::vector<Out> o;
  if (!history(ops, o, std::vector<T>(ops.size(), 77))) NO("a party fails");
  std::set<T> seen;
  for (size_t i = 0; i < ops.size(); i++) for (int64_t j = 0; j < o[i].u.size(); j++) if (!seen.insert(o[i].u[j]).second) NO("operation %zu position %ld: this u was returned before", i, (long)j);
  return 0;
}
'''
mk('c21a', 'C21', [(VO, '''        batch_size + mpfss_seed_size_ + vole_seed_size_) {''', '''        batch_size + mpfss_seed_size_ + vole_seed_size_ + 1) {''')],
   'a batch size for which batch and seeds are exactly as large as the output of one of the parameter sets', 'the sender goes on to the next parameter set, the receiver does not', prog(VO, VOR + '''
int main() {
  int nb = -1;
  both<T>([&](comm_channel* c) { auto p = get(DistributedVectorOLE<T>::Create(c, 20)); nb = get(p->mpfss_->NumBuckets(98)); }, [&](comm_channel* c) { get(DistributedVectorOLE<T>::Create(c, 20)); });
  return nb < 0 || relation({{'p', 4096 - 1589 - nb}, {'r', 10}}) || relation({{'p', 100}, {'r', 10}});
}'''), **two(VO))
mk('c21b', 'C21', [(VO, '''  receiver_cached_.delta = delta;
''', '''  if (!receiver_precomputation_done_) {
    receiver_cached_.delta = delta;
  }
''')], 'a second precomputation on the same instance with another delta', 'the results keep the old delta', prog(VO, VOR + '''
int main() { return relation({{'p', 50}, {'r', 10}, {'r', 60}, {'p', 70}, {'r', 20}, {'r', 100}}); }'''), **two(VO))
mk('c21c', 'C21', [(VO, '''      result.w.tail(remaining) = cached.w;
      num_copied = size;''', '''      result.w.tail(remaining) = cached.w;
      receiver_cached_.w.conservativeResize(
          std::min<int64_t>(receiver_cached_.w.size(), 1000));
      num_copied = size;''')], 'a run that leaves more than 1000 elements of the last batch', 'the receiver drops elements the sender keeps: later runs are out of step', prog(VO, VOR + '''
int main() { return relation({{'p', 1300}, {'r', 10}, {'r', 1100}, {'r', 400}}); }'''), **two(VO))
mk('c21d', 'C21', [(VO, '''  result.w = receiver_cached_.w.tail(size);
''', '''  result.w = size > 4096 ? Vector<T>(receiver_cached_.w.head(size))
                         : Vector<T>(receiver_cached_.w.tail(size));
''')], 'taking more than 4096 elements, but not all, from the cache', 'the receiver takes the front, the sender the end', prog(VO, VOR + '''
int main() { return relation({{'p', 5000}, {'r', 10}, {'r', 4500}, {'r', 5}}); }'''), **two(VO))
mk('c22a', 'C22', [(VO, '''      ASSIGN_OR_RETURN(SenderResult cached, GetSenderCached(remaining));
      result.u.tail(remaining) = cached.u;
      result.v.tail(remaining) = cached.v;''', '''      result.u.tail(remaining) = sender_cached_.u.head(remaining);
      result.v.tail(remaining) = sender_cached_.v.head(remaining);'''), (VO, '''      ASSIGN_OR_RETURN(ReceiverResult cached, GetReceiverCached(remaining));
      result.w.tail(remaining) = cached.w;''', '''      result.w.tail(remaining) = receiver_cached_.w.head(remaining);''')],
   'a run that needs a part of a new batch, and a later run that takes the rest of it', 'elements of the batch are returned by both runs', prog(VO, VOR + '''
int main() { return fresh({{'p', 50}, {'r', 20}, {'r', 60}, {'r', 20}, {'r', 50}}); }'''), **two(VO))
mk('c22b', 'C22', [(VO, '''  ASSIGN_OR_RETURN(sender_vole_seed_, GetSenderCached(new_vole_seed_size));
''', '''  if (new_vole_seed_size != vole_seed_size_) {
    ASSIGN_OR_RETURN(sender_vole_seed_, GetSenderCached(new_vole_seed_size));
  } else {
    // The seed has the right size already.
    GetSenderCached(new_vole_seed_size);
  }
'''), (VO, '''  ASSIGN_OR_RETURN(receiver_vole_seed_, GetReceiverCached(new_vole_seed_size));
''', '''  if (new_vole_seed_size != vole_seed_size_) {
    ASSIGN_OR_RETURN(receiver_vole_seed_,
                     GetReceiverCached(new_vole_seed_size));
  } else {
    // The seed has the right size already.
    GetReceiverCached(new_vole_seed_size);
  }
''')], 'two expansions after the same precomputation', 'the same VOLE seed is consumed by both', prog(VO, VOR + '''
int main() {
  std::vector<T> a, b;
  if (!both<T>([&](comm_channel* c) { auto p = get(DistributedVectorOLE<T>::Create(c, 20)); okay(p->PrecomputeSender(30)); auto& s = p->sender_vole_seed_.u; a.assign(s.data(), s.data() + s.size()); get(p->RunSender(30)); b.assign(s.data(), s.data() + s.size()); get(p->RunSender(30)); },
      [&](comm_channel* c) { auto p = get(DistributedVectorOLE<T>::Create(c, 20)); okay(p->PrecomputeReceiver(30, 5)); get(p->RunReceiver(30)); get(p->RunReceiver(30)); })) NO("a party fails");
  if (a == b) NO("the seed of the first expansion is the seed of the next one");
  return fresh({{'p', 30}, {'r', 20}, {'r', 60}});
}'''), **two(VO))
mk('c22c', 'C22', [(VO, '''      num_copied += sender_cached_.u.size();
      sender_cached_.u.resize(0);
      sender_cached_.v.resize(0);''', '''      num_copied += sender_cached_.u.size();
      if (num_copied < size) {
        sender_cached_.u.resize(0);
        sender_cached_.v.resize(0);
      }'''), (VO, '''      num_copied += receiver_cached_.w.size();
      receiver_cached_.w.resize(0);''', '''      num_copied += receiver_cached_.w.size();
      if (num_copied < size) {
        receiver_cached_.w.resize(0);
      }''')], 'a run that takes exactly all of the last batch', 'the batch stays in the cache and is returned again', prog(VO, VOR + '''
int main() { return fresh({{'p', 40}, {'r', 15}, {'r', 65}, {'r', 10}, {'r', 33}}); }'''), **two(VO))
