// C17: the vote handler against the rules (mode handler), racing candidates (mode race), the tally
// against a count (mode tally), and whole elections among peers played by the harness (mode election).
#include "raft.hh"
#include "raft/RaftUtils.hh"
#include "raft/RaftVoteRegistry.hh"
#include "raft/RaftContactDetails.hh"
using namespace vf;
using namespace quarkdb;

static const RaftServer ME("me", 1);
static std::string vs(RaftVote v) { return v == RaftVote::GRANTED ? "granted" : v == RaftVote::REFUSED ? "refused" : v == RaftVote::VETO ? "veto" : "?"; }

struct Seen {
  RaftTerm term; RaftStatus status; RaftServer leader, voted; int64_t marker; RaftTerm jterm; RaftServer jvote; LogIndex size, start, commit, epoch;
  std::chrono::steady_clock::time_point hb;
  bool operator==(const Seen &o) const {
    return term == o.term && status == o.status && leader == o.leader && voted == o.voted && marker == o.marker && jterm == o.jterm && jvote == o.jvote
      && size == o.size && start == o.start && commit == o.commit && epoch == o.epoch && hb == o.hb;
  }
  std::string str() const {
    return SSTR("term " << term << " " << statusToString(status) << " leader '" << leader.toString() << "' vote '" << voted.toString() << "' journal[term " << jterm << " vote '" << jvote.toString()
      << "' start " << start << " size " << size << " commit " << commit << "]");
  }
};
static Seen look(RaftNode &n) {
  auto s = n.st().getSnapshot();
  return {s->term, s->status, s->leader, s->votedFor, s->leadershipMarker, n.j().getCurrentTerm(), n.j().getVotedFor(), n.j().getLogSize(), n.j().getLogStart(), n.j().getCommitIndex(), n.j().getEpoch(), n.g->heartbeatTracker()->getLastHeartbeat()};
}

static void handler(uint64_t seed, int steps) {
  Rng g(seed);
  std::vector<RaftServer> nodes {ME, {"b", 2}, {"c", 3}, {"d", 4}, {"e", 5}};
  nodes.resize(1 + 2 * (1 + g.below(2)));
  std::vector<RaftServer> outsiders {{"x", 9}, {"b", 3}, {"y", 1}};
  RaftNode n(freshDir("v") + "/n", nodes, ME);
  n.d();
  std::map<RaftTerm, RaftServer> grants;       // to whom, per term
  std::vector<RaftTerm> terms {0};             // of each log entry
  std::string trace;
  auto fail = [&](const char *key, const std::string &m) { VF_FAIL(key, m << "\nseed " << seed << trace); };
  for(int i = 0; i < steps && !ctx().failed(); i++) {
    Seen a = look(n);
    int k = g.below(100);
    if(k < 12) {
      // the log grows
      LogIndex at = a.size;
      RaftTerm t = std::max<RaftTerm>(terms.back(), a.term - (RaftTerm) g.below(2));
      if(t > a.term) continue;
      RedisRequest r {"SET", "k", std::to_string(i)};
      if(!n.j().append(at, RaftEntry(t, r))) { fail("handler:append", "append failed"); return; }
      terms.push_back(t);
      trace += SSTR("\n append " << at << " term " << t);
      continue;
    }
    if(k < 18) {
      LogIndex c = a.commit + g.below(a.size - a.commit);
      n.j().setCommitIndex(c);
      trace += SSTR("\n commit " << c);
      continue;
    }
    if(k < 20) {
      if(a.commit > a.start + 1 && eventually([&] { return n.sm().getLastApplied() >= a.commit; })) { LogIndex t = a.start + 1 + g.below(a.commit - a.start); n.j().trimUntil(t); trace += SSTR("\n trim " << t); }
      continue;
    }
    if(k < 27) {
      // somebody becomes leader, or a newer term is seen
      RaftTerm t = a.term + g.below(3);
      RaftServer l = g.chance(50) ? RaftServer() : nodes[1 + g.below(nodes.size() - 1)];
      n.st().observed(t, l);
      trace += SSTR("\n observed " << t << " '" << l.toString() << "'");
      continue;
    }
    if(k < 30) {
      if(a.status == RaftStatus::LEADER) continue;
      RaftTerm t = a.term + 1;
      bool ok = n.st().observed(t, {}) && n.st().becomeCandidate(t);
      if(ok) grants[t] = ME;
      if(ok && g.chance(60)) { if(n.st().ascend(t)) terms.push_back(t); }
      else if(ok && g.chance(50)) n.st().dropOut(t);
      trace += SSTR("\n ran for leader in term " << t);
      continue;
    }
    if(k < 32) {
      n.reopen();
      n.d();
      trace += "\n restart";
      Seen b = look(n);
      if(b.term != a.term || b.jvote != a.jvote) fail("handler:restart", "restart changed " + a.str() + " to " + b.str());
      ctx().count("restarts");
      continue;
    }
    RaftVoteRequest q;
    q.candidate = g.chance(85) ? nodes[1 + g.below(nodes.size() - 1)] : outsiders[g.below(outsiders.size())];
    q.term = std::max<RaftTerm>(0, a.term + g.range(-2, 3));
    int64_t li = a.size - 1;
    switch(g.below(6)) {
      case 0: q.lastIndex = li; q.lastTerm = terms[li]; break;
      case 1: q.lastIndex = li + g.range(-1, 2); q.lastTerm = terms[li]; break;
      case 2: q.lastIndex = g.range(std::max<int64_t>(0, a.start - 1), li + 1); q.lastTerm = q.lastIndex <= li ? terms[q.lastIndex] : terms[li]; break;
      case 3: q.lastIndex = a.commit + g.range(-1, 1); q.lastTerm = q.lastIndex >= 0 && q.lastIndex <= li ? terms[q.lastIndex] + (g.chance(30) ? 1 : 0) : terms[li]; break;
      case 4: q.lastIndex = g.range(0, li + 3); q.lastTerm = terms[li] + g.range(-1, 2); break;
      default: q.lastIndex = li; q.lastTerm = terms[li] + g.range(-1, 1); break;
    }
    if(q.lastIndex < 0) q.lastIndex = 0;
    if(q.lastTerm < 0) q.lastTerm = 0;
    if(q.lastTerm >= q.term && g.chance(80)) q.term = q.lastTerm + 1;
    bool pre = g.chance(35);
    trace += "\n " + q.describe(pre) + " at " + a.str();
    ctx().current(trace.size() > 3000 ? trace.substr(trace.size() - 3000) : trace);
    // sometimes the way a peer would send it
    RaftVoteResponse r = n.d().requestVote(q, pre);
    Seen b = look(n);
    trace += " -> " + vs(r.vote);
    ctx().count((pre ? "pre_vote_" : "vote_") + vs(r.vote));
    ctx().eval(SSTR(pre << vs(r.vote) << (q.term - a.term) << (q.lastIndex < li) << (q.lastIndex == li) << (q.lastTerm < terms[li]) << (q.lastTerm == terms[li]) << (q.lastIndex <= a.commit) << (q.lastIndex < a.start)
      << (int) a.status << a.leader.empty() << a.voted.empty() << (a.voted == q.candidate) << contains(nodes, q.candidate)));

    bool disruptive = !contains(nodes, q.candidate) && !a.leader.empty();
    bool overwrites = q.lastIndex <= a.commit && (q.lastIndex < a.start || q.lastTerm != terms[q.lastIndex] || q.lastIndex < a.commit);
    bool uptodate = q.lastTerm > terms[li] || (q.lastTerm == terms[li] && q.lastIndex >= li);
    if(r.term != b.term) fail("handler:reply-term", SSTR("replied with term " << r.term << " while in " << b.str()));
    if(disruptive) {
      if(!(a == b)) fail("handler:disruptive-state", "a candidate which is no member changed the state of a node with a leader to " + b.str());
      if(r.vote == RaftVote::GRANTED) fail("handler:disruptive-granted", "a vote was granted to a non-member while there is a leader");
      continue;
    }
    if(overwrites && r.vote != RaftVote::VETO) fail("handler:no-veto", "a candidate which would overwrite committed entries was not vetoed");
    if(!overwrites && r.vote == RaftVote::VETO) fail("handler:veto", "vetoed without reason");
    if(pre) {
      if(!(a == b)) fail("handler:prevote-state", "a pre-vote changed the state to " + b.str());
      if(r.vote == RaftVote::GRANTED) {
        if(q.term < a.term) fail("handler:prevote-old-term", "a pre-vote was granted for an old term");
        if(!uptodate) fail("handler:prevote-log", "a pre-vote was granted to a candidate with an older log");
        if(q.term == a.term && !a.voted.empty() && a.voted != q.candidate) fail("handler:prevote-voted", "a pre-vote was granted in a term in which the vote is taken");
      }
      else if(q.term > a.term && uptodate && !overwrites) fail("handler:prevote-refused", "a pre-vote was refused to an up-to-date candidate of a new term");
      continue;
    }
    if(b.term != std::max(a.term, q.term)) fail("handler:term", "unexpected term afterwards: " + b.str());
    if(b.jterm != b.term || b.jvote != b.voted) fail("handler:persist", "term and vote are not those in the journal: " + b.str());
    if(b.size != a.size || b.commit != a.commit || b.start != a.start) fail("handler:journal", "a vote request changed the log: " + b.str());
    if(r.vote == RaftVote::GRANTED) {
      if(q.term < a.term) fail("handler:old-term", "a vote was granted for an old term");
      if(!uptodate) fail("handler:log", "a vote was granted to a candidate with an older log");
      if(b.voted != q.candidate) fail("handler:vote-not-kept", "the granted vote is not in " + b.str());
      if(grants.count(q.term) && grants[q.term] != q.candidate) fail("handler:two-votes", SSTR("two candidates got the vote of term " << q.term << ": " << grants[q.term].toString() << " and " << q.candidate.toString()));
      grants[q.term] = q.candidate;
    }
    else if(q.term > a.term && uptodate && !overwrites) fail("handler:refused", "a vote was refused to an up-to-date candidate of a new term");
    else if(r.vote != RaftVote::GRANTED && q.term == a.term && b.voted != a.voted) fail("handler:phantom-vote", "no vote was granted, but " + b.str());
  }
  ctx().sample(trace.substr(0, 1500), 2);
}

static void race(uint64_t seed, int terms) {
  Rng g(seed);
  std::vector<RaftServer> nodes {ME, {"b", 2}, {"c", 3}, {"d", 4}, {"e", 5}};
  RaftNode n(freshDir("r") + "/n", nodes, ME);
  n.d();
  std::mutex mtx;
  std::map<RaftTerm, std::set<std::string>> granted;
  std::atomic<int> go {0};
  std::vector<std::thread> th;
  const int T = 4;
  std::atomic<int> done {0};
  for(int i = 0; i < T; i++) th.emplace_back([&, i] {
    Rng r(seed * 31 + i);
    for(int t = 1; t <= terms; t++) {
      go++;
      while(go < T * t) std::this_thread::yield();
      RaftVoteRequest q;
      q.candidate = nodes[1 + i];
      q.term = t * 2 + r.below(2);
      q.lastIndex = 5; q.lastTerm = 1;
      if(r.chance(15)) n.st().observed(q.term, nodes[1 + r.below(4)]);
      bool pre = r.chance(10);
      RaftVoteResponse v = n.d().requestVote(q, pre);
      if(v.vote == RaftVote::GRANTED && !pre) { std::scoped_lock l(mtx); granted[q.term].insert(q.candidate.toString()); }
      ctx().count("race_" + vs(v.vote));
    }
    done++;
  });
  // own candidacies compete as well
  th.emplace_back([&] {
    while(done < T) {
      RaftTerm t = n.st().getSnapshot()->term;
      if(n.st().becomeCandidate(t)) { { std::scoped_lock l(mtx); granted[t].insert(ME.toString()); } n.st().dropOut(t); }
      std::this_thread::yield();
    }
  });
  for(auto &t : th) t.join();
  size_t multi = 0;
  for(auto &x : granted) {
    if(x.second.size() > 1) { std::string w; for(auto &s : x.second) w += " " + s; VF_FAIL("race:two-votes", "term " << x.first << ": the vote went to" << w << ", seed " << seed); }
    multi++;
    ctx().eval(SSTR(seed << ":" << x.first << *x.second.begin()));
  }
  ctx().count("race_terms_with_a_vote", multi);
}

static std::shared_ptr<redisReply> bulk(const std::string &s, int type = REDIS_REPLY_STRING) {
  auto r = std::make_shared<redisReply>();
  r->type = type; r->storage = s; r->str = r->storage.data(); r->len = r->storage.size();
  return r;
}
static qclient::redisReplyPtr reply(const std::vector<std::string> &v) {
  auto r = std::make_shared<redisReply>();
  r->type = REDIS_REPLY_ARRAY;
  for(auto &s : v) {
    std::unique_ptr<redisReply> c(new redisReply());
    c->type = REDIS_REPLY_STRING; c->storage = s; c->str = c->storage.data(); c->len = s.size();
    r->childPtrs.push_back(c.get());
    r->children.emplace_back(std::move(c));
  }
  r->elements = v.size(); r->element = r->childPtrs.data();
  return r;
}

static void tally(uint64_t seed) {
  Rng g(seed);
  for(int i = 0; i < 400; i++) {
    bool pre = g.chance(50);
    size_t others = g.below(9);
    RaftVoteRegistry reg(7, pre);
    int granted = 0, refused = 0, veto = 0, net = 0, parse = 0;
    std::string d;
    for(size_t k = 0; k < others; k++) {
      RaftServer s("n" + std::to_string(k % 3), 10 + k);
      int kind = g.below(g.chance(50) ? 2 : 6);
      bool asReply = g.chance(50);
      if(kind == 5) kind = 0;
      RaftVote v = kind == 0 ? RaftVote::GRANTED : kind == 1 ? RaftVote::REFUSED : RaftVote::VETO;
      d += kind == 0 ? "G" : kind == 1 ? "R" : kind == 2 ? "V" : kind == 3 ? "N" : "P";
      (kind == 0 ? granted : kind == 1 ? refused : kind == 2 ? veto : kind == 3 ? net : parse)++;
      auto soon = std::chrono::steady_clock::now() + std::chrono::milliseconds(1);
      std::promise<qclient::redisReplyPtr> p;
      auto f = p.get_future();
      if(kind <= 2) {
        if(!asReply) { reg.registerVote(s, RaftVoteResponse(g.below(9), v)); continue; }
        p.set_value(reply({std::to_string(g.below(9)), vs(v)}));
        reg.registerVote(s, f, soon);
      }
      else if(kind == 3) {
        int how = g.below(3);
        if(how == 0) { reg.registerNetworkError(s); continue; }
        if(how == 1) p.set_value(nullptr);
        reg.registerVote(s, f, soon);     // how == 2: no answer until the deadline
        if(how == 2 && g.chance(50)) p.set_value(reply({"1", "granted"}));   // too late
      }
      else {
        if(g.chance(30)) { reg.registerParseError(s); continue; }
        static const std::vector<std::vector<std::string>> bad {{"1"}, {"x", "granted"}, {"1", "GRANTED"}, {"1", "granted", "x"}, {"", "granted"}, {"1", ""}, {"1", "grante"}, {"1x", "veto"}};
        p.set_value(g.chance(30) ? bulk("ERR", REDIS_REPLY_ERROR) : reply(g.pick(bad)));
        reg.registerVote(s, f, soon);
      }
    }
    size_t pos = 1 + granted + (pre ? parse : 0);
    ElectionOutcome want = veto ? ElectionOutcome::kVetoed : pos >= (others + 1) / 2 + 1 ? ElectionOutcome::kElected : ElectionOutcome::kNotElected;
    ElectionOutcome got = reg.determineOutcome();
    std::sort(d.begin(), d.end());
    if(got != want) VF_FAIL("tally:outcome", (pre ? "pre-vote" : "vote") << " among " << others + 1 << " nodes, replies " << d << " (Granted, Refused, Veto, Network error, Parse error): outcome " << (int) got << ", expected " << (int) want);
    if((int) reg.count(RaftVote::GRANTED) != granted || (int) reg.count(RaftVote::REFUSED) != refused || (int) reg.count(RaftVote::VETO) != veto || (int) reg.countNetworkError() != net || (int) reg.countParseError() != parse)
      VF_FAIL("tally:counts", "wrong counts for replies " << d);
    // the same node again is a bug, not another vote
    if(others) {
      bool t = throws([&] { reg.registerVote(RaftServer("n0", 10), RaftVoteResponse(7, RaftVote::GRANTED)); });
      if(reg.determineOutcome() != want) VF_FAIL("tally:twice", "a second reply of the same node changed the outcome of " << d);
      if(!t && (int) reg.count(RaftVote::GRANTED) > granted) VF_FAIL("tally:twice", "a second reply of the same node was counted");
    }
    ctx().eval((pre ? "p" : "v") + d);
    ctx().count("tallies");
  }
}

static void election(uint64_t seed, int rounds) {
  Rng g(seed);
  size_t n = g.chance(50) ? 3 : g.chance(50) ? 5 : 2 + g.below(4);
  std::vector<std::unique_ptr<FakePeer>> peers;
  std::vector<RaftServer> nodes {ME};
  for(size_t i = 1; i < n; i++) { peers.emplace_back(new FakePeer()); nodes.push_back(peers.back()->srv()); }
  // an observer never votes
  FakePeer obs;
  RaftTimeouts to(std::chrono::milliseconds(2000), std::chrono::milliseconds(3000), std::chrono::milliseconds(500));
  RaftNode node(freshDir("e") + "/n", nodes, ME, to);
  std::string err, hist;
  node.st().observed(1, {});
  node.j().addObserver(1, obs.srv(), err);
  node.j().setCommitIndex(node.j().getLogSize() - 1);
  for(int r = 0; r < rounds && !ctx().failed(); r++) {
    bool pre = g.chance(40);
    int granted = 0, veto = 0;
    bool ahead = false;
    std::string d;
    auto s0 = node.st().getSnapshot();
    RaftTerm t = s0->term + 1;
    for(auto &p : peers) {
      int k = g.below(10);
      std::string v = k < 5 ? "granted" : k < 7 ? "refused" : k < 8 ? "veto" : k < 9 ? "garbage" : "granted";
      bool off = k == 9 && g.chance(50), hold = k == 9 && !off;
      std::scoped_lock l(p->mtx);
      p->online = !off; p->holdVotes = hold;
      p->vote = p->preVote = v; p->voteTerm = -1; p->term = t;
      if(!off && !hold && v == "refused" && g.chance(20)) { p->voteTerm = t + 1 + g.below(3); ahead = true; }
      d += off ? "O" : hold ? "S" : v.substr(0, 1) + (p->voteTerm > t ? "+" : "");
      if(!off && !hold) { granted += v == "granted" || (pre && v == "garbage"); veto += v == "veto"; }
    }
    std::this_thread::sleep_for(std::chrono::milliseconds(15));    // until the peers have noticed
    ctx().current(SSTR("election seed " << seed << " round " << r << " replies " << d));
    RaftVoteRequest q;
    q.term = t; q.lastIndex = node.j().getLogSize() - 1;
    node.j().fetch(q.lastIndex, q.lastTerm);
    Seen a = look(node);
    hist += SSTR(" [" << t << " " << (pre ? "pre " : "") << d << "]");
    bool enough = 1 + granted >= (int) n / 2 + 1;
    std::string where = SSTR((pre ? "pre-vote" : "election") << " among " << n << " members, replies " << d << " (granted, refused, veto, unparsable, Offline, Silent; +: in a newer term)");
    int64_t before = obs.votes + obs.preVotes;
    if(pre) {
      ElectionOutcome o = RaftElection::performPreVote(q, node.st(), *node.g->contactDetails());
      Seen b = look(node);
      if(!(a == b)) VF_FAIL("election:prevote-state", where << ": state changed to " << b.str());
      if(o == ElectionOutcome::kElected && (!enough || veto)) VF_FAIL("election:prevote-won", where << ": counted as won");
      if(o != ElectionOutcome::kElected && enough && !veto && d.find('S') == std::string::npos) VF_FAIL("election:prevote-lost", where << ": counted as lost");
      if(veto && o != ElectionOutcome::kVetoed) VF_FAIL("election:prevote-veto", where << ": the veto did not count");
      ctx().count("prevote_rounds");
    }
    else {
      node.st().observed(t, {});
      node.st().becomeCandidate(t);
      ElectionOutcome o = RaftElection::perform(q, node.st(), *node.g->lease(), *node.g->contactDetails());
      auto s = node.st().getSnapshot();
      bool lead = s->status == RaftStatus::LEADER;
      if((o == ElectionOutcome::kElected) != lead) VF_FAIL("election:status", where << ": outcome " << (int) o << " but status " << statusToString(s->status));
      if(lead && (!enough || veto)) VF_FAIL("election:won", where << ": became leader");
      if(lead && s->term != t) VF_FAIL("election:term", where << ": leader of term " << s->term << " instead of " << t);
      if(!lead && enough && !veto && !ahead && d.find('S') == std::string::npos) VF_FAIL("election:lost", where << ": lost, outcome " << (int) o << " status " << statusToString(s->status) << " term " << s->term << " of " << t << " leader '" << s->leader.toString() << "' voted '" << s->votedFor.toString() << "' before: " << a.str() << " history " << hist);
      if(veto && o != ElectionOutcome::kVetoed) VF_FAIL("election:veto", where << ": the veto did not count");
      if(ahead && s->term <= t) VF_FAIL("election:newer-term", where << ": the newer term was ignored");
      if(lead) {
        // the lease rests on those who granted, not on others
        for(auto &p : peers) {
          auto c = node.g->lease()->getHandler(p->srv()).get();
          std::scoped_lock l(p->mtx);
          if((p->vote != "granted" || !p->online || p->holdVotes) && c >= s->timeCreated) VF_FAIL("election:lease", where << ": a node which granted nothing extended the lease");
          if(c > p->heard()) VF_FAIL("election:lease-time", where << ": the lease counts from after the vote was given");
        }
        ctx().count("elections_won");
      }
      else ctx().count("elections_lost");
      if(s->status == RaftStatus::CANDIDATE) node.st().dropOut(t);
      if(lead) node.st().observed(t + 1, {});
    }
    if(obs.votes + obs.preVotes != before) VF_FAIL("election:observer", where << ": the observer was asked for its vote");
    std::sort(d.begin(), d.end());
    ctx().eval(SSTR(pre << n << d));
    if(r == 0) ctx().sample(where, 3);
  }
  for(auto &p : peers) p->holdVotes = false;
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  std::string mode = ctx().arg("mode", "handler");
  uint64_t s = ctx().seed;
  if(mode == "handler") for(int i = 0; i < ctx().n(25, 12) && !ctx().failed(); i++) handler(s * 1000003 + i, 250);
  if(mode == "race") for(int i = 0; i < ctx().n(3, 8) && !ctx().failed(); i++) race(s * 1009 + i, 300);
  if(mode == "tally") for(int i = 0; i < ctx().n(15, 20) && !ctx().failed(); i++) tally(s * 1013 + i);
  if(mode == "election") for(int i = 0; i < ctx().n(4, 10) && !ctx().failed(); i++) election(s * 1019 + i, 12);
  return ctx().finish();
}
