// mrai: relational abstract interpreter for LLVM IR.
//
// For every pair of functions I_<name> (the library, instantiated by a probe) and R_<name> (the
// reference semantics) of a module it computes, over all abstract inputs, whether the observable
// outcome of both is the same.  Nothing of the module is executed: values are elements of abstract
// domains and control flow is followed per trace partition.
//
//   positions        difference-bound matrix (zone) over symbolic offsets into the input, closed
//                    under the facts the branches of both sides establish
//   input bytes      sets of byte values (subsets of 0..255) per position, plus binary relations
//   opaque nodes     uninterpreted, memoised relations (what an inner node or a continuation does)
//   memory           objects with cells; closures and match contexts are tracked field-sensitively
//
// Two modes:
//   trace  the two sides run one after the other over the shared facts; the inputs are bounded by
//          the given length; a difference found is definite
//   ind    (induction) the two sides advance in lock step from event to event; the call of an
//          opaque inner node with a continuation closure becomes an obligation of its own (the two
//          continuations have to be equivalent for every position), states are canonicalised and
//          widened, and the work list runs to a fixpoint: no bound on input length or iterations
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <algorithm>
#include <array>
#include <bitset>
#include <chrono>
#include <climits>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
using std::string;
typedef int64_t i64;
typedef uint64_t u64;

// ---------------------------------------------------------------------------------------------
// options and reporting
static int OPT_L = 3;              // bound of the input length in trace mode
static int OPT_CAND = 2;           // candidates of an opaque inner node in trace mode
static u64 OPT_STEPS = 60000000;   // instruction budget per root pair
static u64 OPT_STATES = 400000;    // state budget per root pair
static int OPT_DEPTH = 3000;       // frames
static bool OPT_IND = false;
static int OPT_SAT = 8;
static bool OPT_DEBUG = false;
static bool OPT_PURE = false;       // no allocation, no access to mutable globals
static bool OPT_SAFETY = false;     // memory safety only
static bool OPT_EFFECTS = false;    // call-graph scan instead of interpretation
static const DataLayout *DL;

struct Stop { string kind, msg; };           // ends the analysis of the current state
[[noreturn]] static void unsupported(const string &m) { throw Stop{"unsupported", m}; }

static string jesc(const string &s) {
    string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

// ---------------------------------------------------------------------------------------------
// linear expressions over position variables
struct LinE {
    std::vector<std::pair<int, int>> t;  // sorted (var, coef)
    i64 k = 0;
    bool operator<(const LinE &o) const { return k != o.k ? k < o.k : t < o.t; }
    bool isConst() const { return t.empty(); }
};
static LinE ladd(const LinE &a, const LinE &b, i64 m) {
    LinE r;
    r.k = a.k + m * b.k;
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, int(m * b.t[j].second)}); j++; }
        else { int c = a.t[i].second + int(m * b.t[j].second); if (c) r.t.push_back({a.t[i].first, c}); i++; j++; }
    }
    return r;
}
static std::map<LinE, int> linIds;
static std::deque<LinE> lins;
static int linId(const LinE &l) {
    auto it = linIds.find(l);
    if (it != linIds.end()) return it->second;
    int id = lins.size();
    lins.push_back(l);
    linIds[l] = id;
    return id;
}

// ---------------------------------------------------------------------------------------------
// byte expressions
struct Bex {
    unsigned op = 0;              // 0 leaf, else Instruction opcode or special
    int w = 8;
    int pred = 0;
    int a = -1, b = -1, c = -1;   // children (bex ids) or -1
    u64 ka = 0, kb = 0, kc = 0;   // constants where the child is -1
    int leaf = -1;
    std::vector<int> sup;         // leaves
    std::shared_ptr<std::vector<u64>> tab;  // for |sup| == 1
    std::shared_ptr<std::vector<u64>> lut;  // op LUT
};
static const unsigned OP_LUT = 1000, OP_SELECT = 1001, OP_INTR = 1002;
static std::deque<Bex> bexs;
static std::map<std::tuple<unsigned, int, int, int, int, int, u64, u64, u64>, int> bexIds;
static u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static i64 sext(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

static u64 evalOp(unsigned op, int pred, int w, int wa, u64 a, u64 b, u64 c);

static bool icmpEval(int pred, int w, u64 a, u64 b) {
    i64 sa = sext(a, w), sb = sext(b, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return sa < sb;
    case CmpInst::ICMP_SLE: return sa <= sb;
    case CmpInst::ICMP_SGT: return sa > sb;
    case CmpInst::ICMP_SGE: return sa >= sb;
    }
    unsupported("icmp predicate");
}
static u64 evalOp(unsigned op, int pred, int w, int wa, u64 a, u64 b, u64 c) {
    u64 m = maskw(w);
    switch (op) {
    case Instruction::Add: return (a + b) & m;
    case Instruction::Sub: return (a - b) & m;
    case Instruction::Mul: return (a * b) & m;
    case Instruction::And: return a & b;
    case Instruction::Or: return a | b;
    case Instruction::Xor: return (a ^ b) & m;
    case Instruction::Shl: return b >= (u64)w ? 0 : (a << b) & m;
    case Instruction::LShr: return b >= (u64)w ? 0 : (a & m) >> b;
    case Instruction::AShr: return (u64)(sext(a, w) >> (b >= (u64)w ? w - 1 : b)) & m;
    case Instruction::UDiv: return b ? a / b : 0;
    case Instruction::URem: return b ? a % b : 0;
    case Instruction::SDiv: return b ? (u64)(sext(a, w) / sext(b, w)) & m : 0;
    case Instruction::SRem: return b ? (u64)(sext(a, w) % sext(b, w)) & m : 0;
    case Instruction::ZExt: return a & maskw(wa);
    case Instruction::SExt: return (u64)sext(a, wa) & m;
    case Instruction::Trunc: return a & m;
    case Instruction::ICmp: return icmpEval(pred, wa, a, b);
    case OP_SELECT: return (a & 1) ? b : c;
    case OP_INTR:
        switch (pred) {
        case Intrinsic::umin: return std::min(a & m, b & m);
        case Intrinsic::umax: return std::max(a & m, b & m);
        case Intrinsic::smin: return (u64)std::min(sext(a, w), sext(b, w)) & m;
        case Intrinsic::smax: return (u64)std::max(sext(a, w), sext(b, w)) & m;
        case Intrinsic::usub_sat: return a >= b ? a - b : 0;
        case Intrinsic::uadd_sat: return ((a + b) & m) < a ? m : (a + b) & m;
        case Intrinsic::abs: { i64 s = sext(a, w); return (u64)(s < 0 ? -s : s) & m; }
        case Intrinsic::ctpop: return __builtin_popcountll(a & m);
        case Intrinsic::fshl: { unsigned s = c % w; return s ? ((a << s) | ((b & m) >> (w - s))) & m : a; }
        case Intrinsic::fshr: { unsigned s = c % w; return s ? (((a & m) << (w - s)) | ((b & m) >> s)) & m : b; }
        case Intrinsic::bswap: {
            u64 r = 0; for (int i = 0; i < w / 8; i++) r |= ((a >> (8 * i)) & 255) << (w - 8 - 8 * i); return r; }
        case Intrinsic::cttz: { a &= m; return a ? __builtin_ctzll(a) : w; }
        case Intrinsic::ctlz: { a &= m; return a ? __builtin_clzll(a) - (64 - w) : w; }
        }
        unsupported("intrinsic on bytes");
    }
    unsupported("op " + std::to_string(op));
}
static int bexW(int id) { return bexs[id].w; }
static u64 bexEval(int id, const std::vector<int> &sup, const u64 *vals);
static u64 childEval(int ch, u64 k, const std::vector<int> &sup, const u64 *vals) {
    return ch < 0 ? k : bexEval(ch, sup, vals);
}
static u64 bexEval(int id, const std::vector<int> &sup, const u64 *vals) {
    Bex &e = bexs[id];
    if (e.sup.size() == 1 && e.tab) {
        for (size_t i = 0; i < sup.size(); i++)
            if (sup[i] == e.sup[0]) return (*e.tab)[vals[i]];
        unsupported("bex support");
    }
    if (e.op == 0) {
        for (size_t i = 0; i < sup.size(); i++) if (sup[i] == e.leaf) return vals[i];
        unsupported("bex leaf");
    }
    u64 a = childEval(e.a, e.ka, sup, vals);
    if (e.op == OP_LUT) return a < e.lut->size() ? (*e.lut)[a] : 0;
    u64 b = childEval(e.b, e.kb, sup, vals), c = childEval(e.c, e.kc, sup, vals);
    int wa = e.a >= 0 ? bexW(e.a) : e.b >= 0 ? bexW(e.b) : e.w;
    return evalOp(e.op, e.pred, e.w, wa, a, b, c);
}
static int bexFinish(Bex e) {
    std::set<int> s;
    for (int ch : {e.a, e.b, e.c}) if (ch >= 0) s.insert(bexs[ch].sup.begin(), bexs[ch].sup.end());
    if (e.op == 0) s.insert(e.leaf);
    e.sup.assign(s.begin(), s.end());
    int id = bexs.size();
    bexs.push_back(e);
    if (e.sup.size() == 1) {
        auto t = std::make_shared<std::vector<u64>>(256);
        for (u64 v = 0; v < 256; v++) (*t)[v] = bexEval(id, bexs[id].sup, &v);
        bexs[id].tab = t;
    }
    return id;
}
static int bexLeaf(int leaf) {
    auto key = std::make_tuple(0u, 8, 0, leaf, -1, -1, u64(0), u64(0), u64(0));
    auto it = bexIds.find(key);
    if (it != bexIds.end()) return it->second;
    Bex e; e.op = 0; e.leaf = leaf; e.w = 8;
    return bexIds[key] = bexFinish(e);
}
static int bexMake(unsigned op, int pred, int w, int a, u64 ka, int b, u64 kb, int c, u64 kc) {
    auto key = std::make_tuple(op, w * 100000 + pred, a, b, c, 1, ka, kb, kc);
    auto it = bexIds.find(key);
    if (it != bexIds.end()) return it->second;
    Bex e; e.op = op; e.pred = pred; e.w = w; e.a = a; e.b = b; e.c = c; e.ka = ka; e.kb = kb; e.kc = kc;
    return bexIds[key] = bexFinish(e);
}

// ---------------------------------------------------------------------------------------------
// values
enum VK : uint8_t { UNDEF, INT, LIN, BEX, PTR, FN, AGG };
struct Val {
    VK k = UNDEF;
    uint8_t w = 0;       // INT/LIN/BEX: width; PTR: 1 if `a` is a linear expression id
    int32_t obj = 0;
    i64 a = 0;
    bool operator==(const Val &o) const { return k == o.k && w == o.w && obj == o.obj && a == o.a; }
};
static Val vInt(u64 v, int w) { return Val{INT, (uint8_t)w, 0, (i64)(v & maskw(w))}; }
static Val vPtr(int obj, i64 off) { return Val{PTR, 0, obj, off}; }
static Val vLin(const LinE &l) {
    if (l.isConst()) return vInt((u64)l.k, 64);
    return Val{LIN, 64, 0, linId(l)};
}
static Val vPtrL(int obj, const LinE &l) {
    if (l.isConst()) return vPtr(obj, l.k);
    return Val{PTR, 1, obj, linId(l)};
}
static LinE offOf(const Val &v) {
    if (v.w) return lins[v.a];
    LinE l; l.k = v.a; return l;
}
static LinE linOf(const Val &v) {
    if (v.k == LIN) return lins[v.a];
    LinE l; l.k = sext((u64)v.a, v.w); return l;
}
static std::deque<std::vector<Val>> aggs;
static Val vAgg(std::vector<Val> e) {
    aggs.push_back(std::move(e));
    return Val{AGG, 0, 0, (i64)aggs.size() - 1};
}
static const int OBJ_NULL = 0, OBJ_INPUT = 1;

// ---------------------------------------------------------------------------------------------
// zone domain
static const i64 INF = 1ll << 40;
struct Zone {
    int n = 2;                       // 0 = begin (zero), 1 = end
    std::vector<i64> d{0, INF, INF, 0};  // d[i*n+j]: x_i - x_j <= d
    i64 &at(int i, int j) { return d[i * n + j]; }
    i64 get(int i, int j) const { return d[i * n + j]; }
    int addVar() {
        Zone z; z.n = n + 1; z.d.assign((n + 1) * (n + 1), INF);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) z.at(i, j) = at(i, j);
        z.at(n, n) = 0;
        *this = z;
        return n - 1;
    }
    // x_i - x_j <= k ; false if it becomes infeasible
    bool add(int i, int j, i64 k) {
        if (get(i, j) <= k) return true;
        if (get(j, i) + k < 0) return false;
        at(i, j) = k;
        for (int a = 0; a < n; a++) {
            i64 ai = get(a, i);
            if (ai >= INF) continue;
            for (int b = 0; b < n; b++) {
                i64 jb = get(j, b);
                if (jb >= INF) continue;
                if (ai + k + jb < get(a, b)) at(a, b) = ai + k + jb;
            }
        }
        for (int a = 0; a < n; a++) if (get(a, a) < 0) return false;
        return true;
    }
    // bounds of a linear expression (exact for var, -var, var - var; sound otherwise)
    void bounds(const LinE &l, i64 &lo, i64 &hi) const {
        if (l.t.size() == 2 && l.t[0].second == -l.t[1].second && std::abs(l.t[0].second) == 1) {
            int x = l.t[0].first, y = l.t[1].first;
            if (l.t[0].second < 0) std::swap(x, y);
            hi = get(x, y) >= INF ? INF : get(x, y) + l.k;
            lo = get(y, x) >= INF ? -INF : -get(y, x) + l.k;
            return;
        }
        lo = hi = l.k;
        for (auto &p : l.t) {
            i64 h = get(p.first, 0), m = get(0, p.first);
            i64 vh = h, vl = m >= INF ? -INF : -m;
            i64 a = p.second > 0 ? vl : vh, b = p.second > 0 ? vh : vl;
            if (std::abs(a) >= INF) lo = -INF; else if (lo > -INF) lo += a * p.second;
            if (std::abs(b) >= INF) hi = INF; else if (hi < INF) hi += b * p.second;
        }
    }
    // assert l <= 0; returns false if infeasible; throws if not representable
    static bool representable(const LinE &l) {
        if (l.t.size() <= 1) return l.t.empty() || std::abs(l.t[0].second) == 1;
        return l.t.size() == 2 && l.t[0].second == -l.t[1].second && std::abs(l.t[0].second) == 1;
    }
    bool assertLe0(const LinE &l) {
        if (l.t.empty()) return l.k <= 0;
        if (l.t.size() == 1) {
            if (l.t[0].second == 1) return add(l.t[0].first, 0, -l.k);
            return add(0, l.t[0].first, -l.k);
        }
        int x = l.t[0].first, y = l.t[1].first;
        if (l.t[0].second < 0) std::swap(x, y);
        return add(x, y, -l.k);
    }
};

// ---------------------------------------------------------------------------------------------
// byte domain
typedef std::bitset<256> BSet;
struct ByteFacts {
    std::vector<LinE> off;                     // offset of leaf i
    std::vector<int> leaf;                     // global leaf id
    std::vector<BSet> set;
    struct Rel { int i, j; std::shared_ptr<std::vector<BSet>> r; };  // i < j indices
    std::vector<Rel> rel;
};
static int nextLeaf = 0;

// ---------------------------------------------------------------------------------------------
// functions
struct FnInfo {
    Function *F;
    std::unordered_map<const Value *, int> reg;
    int nregs = 0;
    std::unordered_map<const Instruction *, std::vector<int>> liveCache;
    std::unordered_map<const BasicBlock *, std::set<int>> liveIn;
    bool liveDone = false;
};
static std::unordered_map<Function *, std::unique_ptr<FnInfo>> fnInfos;
static FnInfo *info(Function *F) {
    auto &p = fnInfos[F];
    if (!p) {
        p.reset(new FnInfo);
        p->F = F;
        for (auto &a : F->args()) p->reg[&a] = p->nregs++;
        for (auto &bb : *F) for (auto &i : bb) if (!i.getType()->isVoidTy()) p->reg[&i] = p->nregs++;
    }
    return p.get();
}
static void computeLive(FnInfo *fi) {
    if (fi->liveDone) return;
    fi->liveDone = true;
    bool ch = true;
    while (ch) {
        ch = false;
        for (auto bi = fi->F->end(); bi != fi->F->begin();) {
            --bi;
            BasicBlock &bb = *bi;
            std::set<int> live;
            for (BasicBlock *s : successors(&bb)) {
                for (int r : fi->liveIn[s]) live.insert(r);
                for (auto &ph : s->phis()) {
                    Value *v = ph.getIncomingValueForBlock(&bb);
                    auto it = fi->reg.find(v);
                    if (it != fi->reg.end()) live.insert(it->second);
                }
            }
            for (auto ii = bb.rbegin(); ii != bb.rend(); ++ii) {
                auto it = fi->reg.find(&*ii);
                if (it != fi->reg.end()) live.erase(it->second);
                if (isa<PHINode>(*ii)) continue;
                for (auto &op : ii->operands()) {
                    auto o = fi->reg.find(op.get());
                    if (o != fi->reg.end()) live.insert(o->second);
                }
            }
            if (live != fi->liveIn[&bb]) { fi->liveIn[&bb] = live; ch = true; }
        }
    }
}
// registers live just before instruction I
static const std::vector<int> &liveAt(FnInfo *fi, const Instruction *I) {
    auto it = fi->liveCache.find(I);
    if (it != fi->liveCache.end()) return it->second;
    computeLive(fi);
    const BasicBlock *bb = I->getParent();
    std::set<int> live;
    for (const BasicBlock *s : successors(bb)) {
        for (int r : fi->liveIn[s]) live.insert(r);
        for (auto &ph : s->phis()) {
            auto o = fi->reg.find(ph.getIncomingValueForBlock(bb));
            if (o != fi->reg.end()) live.insert(o->second);
        }
    }
    for (auto ii = bb->rbegin(); ii != bb->rend(); ++ii) {
        auto o = fi->reg.find(&*ii);
        if (o != fi->reg.end()) live.erase(o->second);
        for (auto &op : ii->operands()) {
            auto p = fi->reg.find(op.get());
            if (p != fi->reg.end()) live.insert(p->second);
        }
        if (&*ii == I) break;
    }
    return fi->liveCache[I] = std::vector<int>(live.begin(), live.end());
}

// ---------------------------------------------------------------------------------------------
// machine state
struct Frame {
    FnInfo *fi = nullptr;
    BasicBlock::iterator pc;
    BasicBlock *prev = nullptr;
    const Instruction *callSite = nullptr;   // in the caller
    std::vector<Val> r;
    std::vector<int> allocas;
};
struct Obj {
    u64 size = 0;
    bool heap = false;
    bool zeroed = false;
    bool dead = false;              // outside of its lifetime
    bool mut = false;               // a global variable that is not a constant
    string name;
    std::map<i64, std::pair<int, Val>> c;
};
typedef std::shared_ptr<Frame> FrameP;
typedef std::shared_ptr<Obj> ObjP;

struct OutItem { int tag; Val v; };
struct Ev {                         // event in ind mode
    int kind = 0;                   // 1 cont, 2 inner, 3 one, 4 ret, 5 cont-end
    std::vector<Val> args;
    Val thunk, env;
};

struct MemoE { int fn; std::vector<Val> args; Val res; };

struct State {
    std::vector<FrameP> st[2];
    std::vector<ObjP> objs;
    std::unordered_map<const GlobalVariable *, int> globals;
    Zone z;
    ByteFacts by;
    std::vector<MemoE> memo;
    std::vector<OutItem> out[2];
    Val ret[2];
    bool done[2] = {false, false};
    int side = 0;
    int freshCount = 0;
    std::shared_ptr<std::vector<std::pair<const Instruction *, int>>> tr;  // branch trace (shared prefix ok)
    std::vector<std::pair<const Instruction *, int>> trail[2];
    Ev ev[2];
    bool hasEv[2] = {false, false};
    u64 sinceFork = 0;
    int depthObl = 0;
};

static std::set<const Function *> coveredFns;
static u64 totalSteps = 0, totalPaths = 0, totalForks = 0, totalObl = 0, totalStates = 0;
static std::deque<State> work;

struct Fork {};   // thrown after pushing the alternatives

// functions that were analysed, with source locations
static string locOf(const Instruction *I) {
    if (!I) return "?";
    string s;
    if (const DILocation *dl = I->getDebugLoc().get()) {
        s = dl->getFilename().str() + ":" + std::to_string(dl->getLine());
        for (const DILocation *in = dl->getInlinedAt(); in; in = in->getInlinedAt()) {
            string f = in->getFilename().str();
            if (f.find("mregex/") != string::npos && s.find("mregex/") == string::npos) {
                s = f + ":" + std::to_string(in->getLine());
                break;
            }
        }
    }
    return s.empty() ? "?" : s;
}
static string libLoc(const Instruction *I) {
    if (!I) return "";
    for (const DILocation *dl = I->getDebugLoc().get(); dl; dl = dl->getInlinedAt()) {
        string f = dl->getFilename().str();
        size_t p = f.find("include/mregex/");
        if (p != string::npos) {
            string fn;
            if (auto *sp = dl->getScope()->getSubprogram()) fn = sp->getName().str();
            return f.substr(p) + ":" + std::to_string(dl->getLine()) + (fn.empty() ? "" : " in " + fn);
        }
    }
    return "";
}

// ---- decisions -------------------------------------------------------------------------------
static State *S;   // state being advanced

static int byteIndexOfLeaf(int leaf) {
    for (size_t i = 0; i < S->by.leaf.size(); i++) if (S->by.leaf[i] == leaf) return i;
    unsupported("byte leaf not in state");
}

// three-way decision of the sign of l: -1, 0, 1 (forks if undetermined)
static bool narrowSign(State &s, const LinE &l, int sign) {
    LinE neg; neg = ladd(neg, l, -1);
    if (sign == 0) return s.z.assertLe0(l) && s.z.assertLe0(neg);
    if (sign < 0) { LinE t = l; t.k += 1; return s.z.assertLe0(t); }   // l <= -1
    neg.k += 1;                                                        // -l + 1 <= 0
    return s.z.assertLe0(neg);
}
static int concretizeVar(int var);
static void reduceRepr(const LinE &l0);
static LinE substKnown(const LinE &l) {
    LinE r; r.k = l.k;
    for (auto &p : l.t) {
        i64 h = S->z.get(p.first, 0), m = S->z.get(0, p.first);
        if (p.first == 0 || (h < INF && h == -m)) { r.k += (p.first == 0 ? 0 : h) * p.second; continue; }
        r.t.push_back(p);
    }
    return r;
}
static void pushAlternatives(std::vector<State> &&v) {
    totalForks++;
    for (auto &x : v) { x.sinceFork = 0; work.push_back(std::move(x)); }
    throw Fork{};
}
static int decideSign(const LinE &l0) {
    LinE l = substKnown(l0);
    i64 lo, hi;
    S->z.bounds(l, lo, hi);
    if (lo > 0) return 1;
    if (hi < 0) return -1;
    if (lo == 0 && hi == 0) return 0;
    if (!Zone::representable(l)) { reduceRepr(l); unsupported("nonlinear"); }
    std::vector<State> alts;
    for (int sg : {-1, 0, 1}) {
        if (sg < 0 && lo >= 0) continue;
        if (sg > 0 && hi <= 0) continue;
        State t = *S;
        if (narrowSign(t, l, sg)) alts.push_back(std::move(t));
    }
    if (alts.empty()) throw Stop{"infeasible", ""};
    if (alts.size() == 1) { *S = std::move(alts[0]); return decideSign(l0); }
    pushAlternatives(std::move(alts));
    return 0;
}
// two-way: is l >= 0 ?
static bool decideGe0(const LinE &l0) {
    LinE l = substKnown(l0);
    i64 lo, hi;
    S->z.bounds(l, lo, hi);
    if (lo >= 0) return true;
    if (hi < 0) return false;
    if (!Zone::representable(l)) { reduceRepr(l); unsupported("nonlinear"); }
    std::vector<State> alts;
    { State t = *S; LinE n; n = ladd(n, l, -1); if (t.z.assertLe0(n)) alts.push_back(std::move(t)); }
    { State t = *S; LinE n = l; n.k += 1; if (t.z.assertLe0(n)) alts.push_back(std::move(t)); }
    if (alts.empty()) throw Stop{"infeasible", ""};
    if (alts.size() == 1) { *S = std::move(alts[0]); return decideGe0(l0); }
    pushAlternatives(std::move(alts));
    return false;
}
static void forkOnVar(int var) {
    i64 hi = S->z.get(var, 0), lo = S->z.get(0, var);
    if (hi >= INF || lo >= INF || hi + lo > 64) unsupported("cannot concretize an unbounded position");
    std::vector<State> alts;
    for (i64 v = -lo; v <= hi; v++) {
        State t = *S;
        if (t.z.add(var, 0, v) && t.z.add(0, var, -v)) alts.push_back(std::move(t));
    }
    if (alts.empty()) throw Stop{"infeasible", ""};
    if (alts.size() == 1) { *S = std::move(alts[0]); return; }
    pushAlternatives(std::move(alts));
}
static void reduceRepr(const LinE &l) {
    int best = -1; i64 bw = INF;
    for (auto &p : l.t) {
        i64 wd = S->z.get(p.first, 0) + S->z.get(0, p.first);
        if (wd > 0 && wd < bw) { bw = wd; best = p.first; }
    }
    if (best < 0) unsupported("nonlinear expression over unbounded positions");
    forkOnVar(best);
    throw Fork{};   // only one alternative: retry with the refined state
}
// make a linear value constant
static i64 concretize(const LinE &l0) {
    LinE l = substKnown(l0);
    while (!l.t.empty()) {
        forkOnVar(l.t[0].first);
        l = substKnown(l0);
    }
    return l.k;
}

// decide an i1 byte expression
static bool decideBex(int id) {
    Bex &e = bexs[id];
    if (e.sup.size() == 1) {
        int bi = byteIndexOfLeaf(e.sup[0]);
        BSet T, F;
        for (int v = 0; v < 256; v++) if (S->by.set[bi][v]) { if ((*e.tab)[v] & 1) T[v] = 1; else F[v] = 1; }
        // binary relations are propagated when they are added or a set changes
        if (F.none()) return true;
        if (T.none()) return false;
        std::vector<State> alts;
        for (int w = 0; w < 2; w++) {
            State t = *S;
            t.by.set[bi] = w == 0 ? T : F;
            bool ok = true, ch = true;
            while (ch && ok) {
                ch = false;
                for (auto &r : t.by.rel) {
                    BSet ni, nj;
                    for (int v = 0; v < 256; v++) if (t.by.set[r.i][v]) {
                        BSet x = (*r.r)[v] & t.by.set[r.j];
                        if (x.any()) { ni[v] = 1; nj |= x; }
                    }
                    nj &= t.by.set[r.j];
                    if (ni != t.by.set[r.i]) { t.by.set[r.i] = ni; ch = true; }
                    if (nj != t.by.set[r.j]) { t.by.set[r.j] = nj; ch = true; }
                    if (ni.none() || nj.none()) { ok = false; break; }
                }
            }
            if (ok) alts.push_back(std::move(t));
        }
        if (alts.empty()) throw Stop{"infeasible", ""};
        if (alts.size() == 1) { *S = std::move(alts[0]); return decideBex(id); }
        pushAlternatives(std::move(alts));
    }
    if (e.sup.size() == 2) {
        int bi = byteIndexOfLeaf(e.sup[0]), bj = byteIndexOfLeaf(e.sup[1]);
        std::vector<int> sup = e.sup;
        if (bi > bj) { std::swap(bi, bj); std::swap(sup[0], sup[1]); }
        auto T = std::make_shared<std::vector<BSet>>(256), F = std::make_shared<std::vector<BSet>>(256);
        BSet ti, tj, fi, fj;
        std::vector<std::shared_ptr<std::vector<BSet>>> olds;
        for (auto &r : S->by.rel) if (r.i == bi && r.j == bj) olds.push_back(r.r);
        for (int a = 0; a < 256; a++) if (S->by.set[bi][a]) {
            BSet cand = S->by.set[bj];
            for (auto &o : olds) cand &= (*o)[a];
            for (int b = 0; b < 256; b++) if (cand[b]) {
                u64 v[2] = {(u64)a, (u64)b};
                if (bexEval(id, sup, v) & 1) { (*T)[a][b] = 1; ti[a] = 1; tj[b] = 1; }
                else { (*F)[a][b] = 1; fi[a] = 1; fj[b] = 1; }
            }
        }
        if (fi.none()) return true;
        if (ti.none()) return false;
        std::vector<State> alts;
        for (int w = 0; w < 2; w++) {
            State t = *S;
            auto &rl = t.by.rel;
            rl.erase(std::remove_if(rl.begin(), rl.end(), [&](ByteFacts::Rel &r) { return r.i == bi && r.j == bj; }), rl.end());
            rl.push_back({bi, bj, w == 0 ? T : F});
            t.by.set[bi] = w == 0 ? ti : fi;
            t.by.set[bj] = w == 0 ? tj : fj;
            alts.push_back(std::move(t));
        }
        pushAlternatives(std::move(alts));
    }
    // too many bytes: split a boolean child first
    for (int ch : {e.a, e.b, e.c})
        if (ch >= 0 && bexs[ch].w == 1) { decideBex(ch); }
    // all boolean children are decided now; evaluate structurally
    auto cv = [&](int ch, u64 k) -> u64 { return ch < 0 ? k : (bexs[ch].w == 1 ? (u64)decideBex(ch) : (unsupported("wide byte expression"), 0)); };
    return evalOp(e.op, e.pred, e.w, 1, cv(e.a, e.ka), cv(e.b, e.kb), cv(e.c, e.kc)) & 1;
}
// fork so that a byte expression becomes a constant (splits by result value)
static u64 concretizeBex(int id) {
    Bex &e = bexs[id];
    if (e.sup.size() == 2) {
        // by decisions on "the result is v" for the values it can take (few: tables, flags)
        int bi = byteIndexOfLeaf(e.sup[0]), bj = byteIndexOfLeaf(e.sup[1]);
        std::set<u64> vals;
        for (int a = 0; a < 256; a++) if (S->by.set[bi][a]) for (int b = 0; b < 256; b++) if (S->by.set[bj][b]) {
            u64 v[2] = {(u64)a, (u64)b};
            vals.insert(bexEval(id, e.sup, v));
        }
        u64 last = *vals.rbegin();
        for (u64 v : vals) {
            if (v == last) return v;
            int eq = bexMake(Instruction::ICmp, CmpInst::ICMP_EQ, 1, id, 0, -1, v, -1, 0);
            if (decideBex(eq)) return v;
        }
    }
    if (e.sup.size() != 1) {
        // decide the boolean parts of a wide expression
        auto cv = [&](int ch, u64 k) -> u64 { return ch < 0 ? k : bexs[ch].w == 1 ? (u64)decideBex(ch) : concretizeBex(ch); };
        u64 a = cv(e.a, e.ka), b = cv(e.b, e.kb), c = cv(e.c, e.kc);
        if (e.op == OP_LUT) return a < e.lut->size() ? (*e.lut)[a] : 0;
        int wa = e.a >= 0 ? bexW(e.a) : e.b >= 0 ? bexW(e.b) : e.w;
        return evalOp(e.op, e.pred, e.w, wa, a, b, c);
    }
    int bi = byteIndexOfLeaf(e.sup[0]);
    std::map<u64, BSet> parts;
    for (int v = 0; v < 256; v++) if (S->by.set[bi][v]) parts[(*e.tab)[v]][v] = 1;
    if (parts.size() == 1) return parts.begin()->first;
    std::vector<State> alts;
    for (auto &p : parts) { State t = *S; t.by.set[bi] = p.second; alts.push_back(std::move(t)); }
    pushAlternatives(std::move(alts));
    return 0;
}

static bool decideBool(const Val &v) {
    if (v.k == INT) return v.a & 1;
    if (v.k == BEX) return decideBex((int)v.a);
    if (v.k == UNDEF) throw Stop{"undef", "branch on an undefined value"};
    if (v.k == PTR) return v.obj != OBJ_NULL;
    unsupported("boolean value kind");
}

// ---- memory ----------------------------------------------------------------------------------
static int newObj(u64 size, const string &name) {
    auto o = std::make_shared<Obj>();
    o->size = size; o->name = name;
    S->objs.push_back(o);
    return (int)S->objs.size() - 1;
}
static Obj &wobj(int id) {
    auto &p = S->objs[id];
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return *p;
}
static i64 constOff(const Val &p) { return p.w ? concretize(offOf(p)) : p.a; }

static Val constVal(const Constant *c);
static Val undefOf(Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
        std::vector<Val> e;
        for (auto *x : st->elements()) e.push_back(undefOf(x));
        return vAgg(e);
    }
    if (auto *at = dyn_cast<ArrayType>(t)) return vAgg(std::vector<Val>(at->getNumElements(), undefOf(at->getElementType())));
    return Val{};
}
static Val zeroOf(Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
        std::vector<Val> e;
        for (auto *x : st->elements()) e.push_back(zeroOf(x));
        return vAgg(e);
    }
    if (auto *at = dyn_cast<ArrayType>(t)) return vAgg(std::vector<Val>(at->getNumElements(), zeroOf(at->getElementType())));
    if (t->isPointerTy()) return vPtr(OBJ_NULL, 0);
    if (t->isIntegerTy()) return vInt(0, t->getIntegerBitWidth());
    if (t->isVectorTy()) unsupported("vector");
    return vInt(0, 64);
}
static void storeTyped(int obj, i64 off, Type *t, const Val &v);
static Val loadTyped(int obj, i64 off, Type *t);

static int globalObj(const GlobalVariable *g) {
    auto it = S->globals.find(g);
    if (it != S->globals.end()) return it->second;
    int id = newObj(DL->getTypeAllocSize(g->getValueType()), g->getName().str());
    S->globals[g] = id;
    S->objs[id]->mut = !g->isConstant();
    if (g->hasInitializer()) {
        const Constant *init = g->getInitializer();
        Type *t = g->getValueType();
        std::function<void(const Constant *, Type *, i64)> put = [&](const Constant *c, Type *ty, i64 off) {
            if (auto *cda = dyn_cast<ConstantDataArray>(c)) {
                i64 es = DL->getTypeAllocSize(cda->getElementType());
                for (unsigned i = 0; i < cda->getNumElements(); i++) put(cda->getElementAsConstant(i), cda->getElementType(), off + es * i);
                return;
            }
            if (auto *st = dyn_cast<StructType>(ty)) {
                auto *sl = DL->getStructLayout(st);
                for (unsigned i = 0; i < st->getNumElements(); i++) put(c->getAggregateElement(i), st->getElementType(i), off + sl->getElementOffset(i));
                return;
            }
            if (auto *at = dyn_cast<ArrayType>(ty)) {
                i64 es = DL->getTypeAllocSize(at->getElementType());
                for (unsigned i = 0; i < at->getNumElements(); i++) put(c->getAggregateElement(i), at->getElementType(), off + es * i);
                return;
            }
            storeTyped(id, off, ty, constVal(c));
        };
        put(init, t, 0);
    }
    return id;
}
static Val constVal(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) unsupported("wide integer");
        return vInt(ci->getZExtValue(), ci->getBitWidth());
    }
    if (isa<ConstantPointerNull>(c)) return vPtr(OBJ_NULL, 0);
    if (isa<UndefValue>(c)) return undefOf(c->getType());
    if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto *f = dyn_cast<Function>(c)) return Val{FN, 0, 0, (i64)(intptr_t)f};
    if (auto *g = dyn_cast<GlobalVariable>(c)) return vPtr(globalObj(g), 0);
    if (auto *cs = dyn_cast<ConstantAggregate>(c)) {
        std::vector<Val> e;
        for (auto &o : cs->operands()) e.push_back(constVal(cast<Constant>(o.get())));
        return vAgg(e);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            auto *g = cast<GEPOperator>(ce);
            APInt off(64, 0);
            if (!g->accumulateConstantOffset(*DL, off)) unsupported("const gep");
            Val b = constVal(cast<Constant>(g->getPointerOperand()));
            b.a += off.getSExtValue();
            return b;
        }
        if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::PtrToInt)
            return constVal(ce->getOperand(0));
    }
    string s; raw_string_ostream os(s); c->print(os);
    unsupported("constant " + s);
}
static int valSize(const Val &v) {
    switch (v.k) {
    case INT: case BEX: case LIN: return (v.w + 7) / 8;
    case PTR: case FN: return 8;
    default: return 0;
    }
}
static void checkAccess(int obj, i64 off, i64 size, const char *what) {
    if (obj == OBJ_NULL) throw Stop{"null", string("null pointer ") + what};
    if (obj < 0 || obj >= (int)S->objs.size() || !S->objs[obj]) throw Stop{"dangling", string(what) + " through a dangling pointer"};
    Obj &o = *S->objs[obj];
    if (o.dead) throw Stop{"dangling", string(what) + " of an object after the end of its lifetime"};
    if (off < 0 || (u64)(off + size) > o.size) throw Stop{"oob", string(what) + " outside of object " + o.name};
}
static void killCells(Obj &o, i64 off, i64 size) {
    auto it = o.c.lower_bound(off - 16);
    while (it != o.c.end() && it->first < off + size) {
        i64 a = it->first, b = a + it->second.first;
        if (b <= off) { ++it; continue; }
        Val v = it->second.second;
        it = o.c.erase(it);
        // keep the parts of a constant that stay
        if (v.k == INT && (a < off || b > off + size))
            for (i64 x = a; x < b; x++)
                if (x < off || x >= off + size) o.c[x] = {1, vInt((u64)v.a >> (8 * (x - a)), 8)};
    }
}
static void storeTyped(int obj, i64 off, Type *t, const Val &v) {
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            storeTyped(obj, off + sl->getElementOffset(i), st->getElementType(i), v.k == AGG ? aggs[v.a][i] : Val{});
        return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        i64 es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++)
            storeTyped(obj, off + es * i, at->getElementType(), v.k == AGG ? aggs[v.a][i] : Val{});
        return;
    }
    i64 size = DL->getTypeStoreSize(t);
    checkAccess(obj, off, size, "store");
    Obj &o = wobj(obj);
    killCells(o, off, size);
    if (v.k != UNDEF) o.c[off] = {(int)size, v};
}
static Val byteAt(const LinE &off);
static Val loadScalar(int obj, i64 off, Type *t) {
    i64 size = DL->getTypeStoreSize(t);
    checkAccess(obj, off, size, "load");
    Obj &o = *S->objs[obj];
    auto it = o.c.find(off);
    int w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64;
    if (it != o.c.end() && it->second.first == size) {
        Val v = it->second.second;
        if (v.k == INT) {
            if (t->isPointerTy()) { if (v.a == 0) return vPtr(OBJ_NULL, 0); return v; }
            if (v.w != w) return vInt((u64)v.a, w);
        }
        if (v.k == PTR && v.obj == OBJ_NULL && !v.w && t->isIntegerTy()) return vInt((u64)v.a, w);
        if (v.k == BEX && v.w != w) {
            if (w < v.w) return Val{BEX, (uint8_t)w, 0, bexMake(Instruction::Trunc, 0, w, (int)v.a, 0, -1, 0, -1, 0)};
            return Val{BEX, (uint8_t)w, 0, bexMake(Instruction::ZExt, 0, w, (int)v.a, 0, -1, 0, -1, 0)};
        }
        return v;
    }
    // assemble from bytes / narrower or wider constants
    u64 acc = 0;
    bool undef = false;
    int bexPart = -1; int bexShift = 0; bool many = false;
    std::vector<std::pair<int, Val>> parts;
    for (i64 x = off; x < off + size;) {
        auto j = o.c.upper_bound(x);
        if (j == o.c.begin()) { if (o.zeroed) { x++; continue; } undef = true; break; }
        --j;
        i64 a = j->first, b = a + j->second.first;
        if (x >= b) { if (o.zeroed) { x++; continue; } undef = true; break; }
        const Val &v = j->second.second;
        if (v.k == INT) { acc |= (((u64)v.a >> (8 * (x - a))) & 255) << (8 * (x - off)); x++; }
        else if (v.k == PTR && v.obj == OBJ_NULL && !v.w) { acc |= (((u64)v.a >> (8 * (x - a))) & 255) << (8 * (x - off)); x++; }
        else if (v.k == BEX && a == x && b <= off + size) { parts.push_back({int(x - off), v}); x = b; }
        else if (v.k == BEX && x >= a) { // part of a wider byte expression
            int sh = 8 * (x - a);
            int id = bexMake(Instruction::LShr, 0, v.w, (int)v.a, 0, -1, sh, -1, 0);
            int tr = bexMake(Instruction::Trunc, 0, 8, id, 0, -1, 0, -1, 0);
            parts.push_back({int(x - off), Val{BEX, 8, 0, tr}});
            x++;
        }
        else unsupported("partial load");
    }
    (void)bexPart; (void)bexShift; (void)many;
    if (undef) return Val{};
    if (parts.empty()) {
        if (t->isPointerTy()) { if (acc == 0) return vPtr(OBJ_NULL, 0); unsupported("pointer from bytes"); }
        return vInt(acc, w);
    }
    int cur = -1;
    for (auto &p : parts) {
        int id = (int)p.second.a;
        if (bexs[id].w < w) id = bexMake(Instruction::ZExt, 0, w, id, 0, -1, 0, -1, 0);
        if (p.first) id = bexMake(Instruction::Shl, 0, w, id, 0, -1, 8 * p.first, -1, 0);
        cur = cur < 0 ? id : bexMake(Instruction::Or, 0, w, cur, 0, id, 0, -1, 0);
    }
    if (acc) cur = bexMake(Instruction::Or, 0, w, cur, 0, -1, acc, -1, 0);
    return Val{BEX, (uint8_t)w, 0, cur};
}
static Val loadTyped(int obj, i64 off, Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        std::vector<Val> e;
        for (unsigned i = 0; i < st->getNumElements(); i++) e.push_back(loadTyped(obj, off + sl->getElementOffset(i), st->getElementType(i)));
        return vAgg(e);
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        i64 es = DL->getTypeAllocSize(at->getElementType());
        std::vector<Val> e;
        for (unsigned i = 0; i < at->getNumElements(); i++) e.push_back(loadTyped(obj, off + es * i, at->getElementType()));
        return vAgg(e);
    }
    if (t->isVectorTy() || t->isFloatingPointTy()) unsupported("vector or floating point load");
    return loadScalar(obj, off, t);
}
// the byte of the input at an offset; a violation if the offset may lie outside
static Val byteAt(const LinE &off0) {
    LinE off = substKnown(off0);
    if (!decideGe0(off)) throw Stop{"oob", "reads before the beginning of the input"};
    LinE e; e.t = {{1, 1}};
    LinE room = ladd(e, off, -1); room.k -= 1;
    if (!decideGe0(room)) throw Stop{"oob", "reads past the end of the input"};
    for (size_t i = 0; i < S->by.off.size(); i++) {
        if (decideSign(ladd(off, S->by.off[i], -1)) == 0) return Val{BEX, 8, 0, bexLeaf(S->by.leaf[i])};
    }
    int leaf = (int)S->by.leaf.size();
    S->by.off.push_back(off);
    S->by.leaf.push_back(leaf);
    BSet all; all.set();
    S->by.set.push_back(all);
    nextLeaf = std::max(nextLeaf, leaf + 1);
    return Val{BEX, 8, 0, bexLeaf(leaf)};
}

// ---- events / intrinsics -------------------------------------------------------------------
// equality of two values (forks if undetermined)
static bool decideEq(const Val &a, const Val &b) {
    if (a == b) return true;
    if (a.k == PTR && b.k == PTR) {
        if (a.obj != b.obj) return false;
        return decideSign(ladd(offOf(a), offOf(b), -1)) == 0;
    }
    if ((a.k == LIN || a.k == INT) && (b.k == LIN || b.k == INT)) {
        if (a.k == INT && b.k == INT) return a.a == b.a;
        return decideSign(ladd(linOf(a), linOf(b), -1)) == 0;
    }
    if (a.k == BEX || b.k == BEX) {
        if ((a.k == BEX || a.k == INT) && (b.k == BEX || b.k == INT)) {
            int w = a.k == BEX ? bexW(a.a) : bexW(b.a);
            (void)w;
            int id = bexMake(Instruction::ICmp, CmpInst::ICMP_EQ, 1, a.k == BEX ? (int)a.a : -1, a.k == INT ? a.a : 0,
                             b.k == BEX ? (int)b.a : -1, b.k == INT ? b.a : 0, -1, 0);
            return decideBex(id);
        }
    }
    if (a.k == UNDEF || b.k == UNDEF) return a.k == b.k;
    return false;
}
// look up a memoised result of an uninterpreted function
static MemoE *memoFind(int fn, const std::vector<Val> &args) {
    for (size_t mi = 0; mi < S->memo.size(); mi++) {
        MemoE m = S->memo[mi];   // a copy: decisions may replace the state
        if (m.fn != fn || m.args.size() != args.size()) continue;
        bool eq = true;
        // constants first, to avoid needless forks
        for (size_t i = 0; i < args.size() && eq; i++)
            if (args[i].k == INT && m.args[i].k == INT && !(args[i] == m.args[i])) eq = false;
        for (size_t i = 0; i < args.size() && eq; i++) eq = decideEq(args[i], m.args[i]);
        if (eq) return &S->memo[mi];
    }
    return nullptr;
}
static bool memoBool(int fn, const std::vector<Val> &args) {
    if (auto *m = memoFind(fn, args)) return m->res.a;
    std::vector<State> alts;
    for (int b = 1; b >= 0; b--) { State t = *S; t.memo.push_back({fn, args, vInt(b, 1)}); alts.push_back(std::move(t)); }
    pushAlternatives(std::move(alts));
    return false;
}
static Val posVal(int var) { LinE l; l.t = {{var, 1}}; return vPtrL(OBJ_INPUT, l); }
static int freshPos(const LinE *lo, const LinE *hi, int strictLo = 0, int strictHi = 0) {
    int v = S->z.addVar();
    LinE x; x.t = {{v, 1}};
    LinE zero, end; end.t = {{1, 1}};
    LinE a = ladd(lo ? *lo : zero, x, -1); a.k += strictLo;   // lo + s - x <= 0
    LinE b = ladd(x, hi ? *hi : end, -1); b.k += strictHi;
    if (!S->z.assertLe0(a) || !S->z.assertLe0(b)) throw Stop{"infeasible", ""};
    return v;
}

struct SyncPoint {};   // thrown when the current side reached an event (ind mode)

static Val evalOperand(Frame &f, Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
    auto it = f.fi->reg.find(v);
    if (it == f.fi->reg.end()) unsupported("operand");
    return f.r[it->second];
}
static Frame &top() {
    auto &p = S->st[S->side].back();
    if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
    return *p;
}

static Val binop(const Instruction &I, Val a, Val b) {
    unsigned op = I.getOpcode();
    int w = I.getType()->isIntegerTy() ? I.getType()->getIntegerBitWidth() : 64;
    if (a.k == UNDEF || b.k == UNDEF) {
        if (op == Instruction::And && ((a.k == INT && a.a == 0) || (b.k == INT && b.a == 0))) return vInt(0, w);
        return Val{};
    }
    if (a.k == INT && b.k == INT) return vInt(evalOp(op, 0, w, w, a.a, b.a, 0), w);
    // pointers as integers
    if (a.k == PTR || b.k == PTR) {
        if (op == Instruction::Sub && a.k == PTR && b.k == PTR) {
            if (a.obj != b.obj) {
                unsupported("difference of pointers into different objects");
            }
            return vLin(ladd(offOf(a), offOf(b), -1));
        }
        if (op == Instruction::Add || (op == Instruction::Sub && a.k == PTR)) {
            Val p = a.k == PTR ? a : b, q = a.k == PTR ? b : a;
            if (q.k == INT || q.k == LIN) return vPtrL(p.obj, ladd(offOf(p), linOf(q), op == Instruction::Sub ? -1 : 1));
        }
        if (a.k == PTR && a.obj == OBJ_NULL && !a.w) a = vInt(a.a, w);
        else if (b.k == PTR && b.obj == OBJ_NULL && !b.w) b = vInt(b.a, w);
        else if (op == Instruction::And && b.k == INT && a.k == PTR && a.obj != OBJ_INPUT && !a.w) {
            return vInt((u64)a.a & b.a, w);   // alignment checks: objects are maximally aligned
        }
        else unsupported("pointer arithmetic");
        return binop(I, a, b);
    }
    if (a.k == LIN || b.k == LIN) {
        if (a.k == BEX || b.k == BEX) {
            Val &l = a.k == LIN ? a : b;
            i64 k = concretize(lins[l.a]);
            l = vInt((u64)k, w);
            return binop(I, a, b);
        }
        if (op == Instruction::Add) return vLin(ladd(linOf(a), linOf(b), 1));
        if (op == Instruction::Sub) return vLin(ladd(linOf(a), linOf(b), -1));
        if (op == Instruction::Mul && b.k == INT) { LinE z; return vLin(ladd(z, linOf(a), b.a)); }
        if (op == Instruction::Mul && a.k == INT) { LinE z; return vLin(ladd(z, linOf(b), a.a)); }
        if (op == Instruction::Shl && b.k == INT && b.a < 16) { LinE z; return vLin(ladd(z, linOf(a), 1ll << b.a)); }
        if (op == Instruction::Xor && b.k == INT && (u64)b.a == maskw(64)) {   // ~x = -x - 1
            LinE z; LinE r = ladd(z, linOf(a), -1); r.k -= 1; return vLin(r);
        }
        if (a.k == LIN) a = vInt((u64)concretize(lins[a.a]), w);
        if (b.k == LIN) b = vInt((u64)concretize(lins[b.a]), w);
        return vInt(evalOp(op, 0, w, w, a.a, b.a, 0), w);
    }
    // byte expressions
    if (w == 1 && a.k == BEX && b.k == BEX) {
        std::set<int> s(bexs[a.a].sup.begin(), bexs[a.a].sup.end());
        s.insert(bexs[b.a].sup.begin(), bexs[b.a].sup.end());
        if (s.size() > 1) { bool v = decideBex((int)a.a); return binop(I, vInt(v, 1), b); }
    }
    if (w == 1 && (op == Instruction::And || op == Instruction::Or)) {
        const Val &k = a.k == INT ? a : b, &e = a.k == INT ? b : a;
        if (a.k == INT || b.k == INT) {
            if (op == Instruction::And) return k.a ? e : vInt(0, 1);
            return k.a ? vInt(1, 1) : e;
        }
    }
    int id = bexMake(op, 0, w, a.k == BEX ? (int)a.a : -1, a.k == INT ? a.a : 0, b.k == BEX ? (int)b.a : -1, b.k == INT ? b.a : 0, -1, 0);
    return Val{BEX, (uint8_t)w, 0, id};
}
static Val icmp(int pred, Val a, Val b, int w) {
    if (a.k == UNDEF || b.k == UNDEF) return Val{};
    if (a.k == INT && b.k == INT) return vInt(icmpEval(pred, w, a.a, b.a), 1);
    auto asPtr = [](Val &v) { if (v.k == INT && v.a == 0) v = vPtr(OBJ_NULL, 0); };
    if (a.k == PTR || b.k == PTR || a.k == FN || b.k == FN) {
        asPtr(a); asPtr(b);
        if (a.k == FN || b.k == FN) {
            bool eq = a == b;
            if (pred == CmpInst::ICMP_EQ) return vInt(eq, 1);
            if (pred == CmpInst::ICMP_NE) return vInt(!eq, 1);
            unsupported("function pointer order");
        }
        if (a.k != PTR || b.k != PTR) unsupported("pointer compared with integer");
        if (a.obj != b.obj) {
            if (pred == CmpInst::ICMP_EQ) return vInt(0, 1);
            if (pred == CmpInst::ICMP_NE) return vInt(1, 1);
            if (a.obj == OBJ_NULL || b.obj == OBJ_NULL) { // null is below every object
                int s = a.obj == OBJ_NULL ? -1 : 1;
                switch (pred) {
                case CmpInst::ICMP_ULT: case CmpInst::ICMP_ULE: return vInt(s < 0, 1);
                case CmpInst::ICMP_UGT: case CmpInst::ICMP_UGE: return vInt(s > 0, 1);
                }
            }
            unsupported("order of pointers into different objects");
        }
        int s = decideSign(ladd(offOf(a), offOf(b), -1));
        return vInt(icmpEval(pred >= CmpInst::ICMP_UGT && pred <= CmpInst::ICMP_ULE ? (pred - CmpInst::ICMP_UGT + CmpInst::ICMP_SGT) : pred, 64, (u64)(i64)s, 0), 1);
    }
    if (a.k == LIN || b.k == LIN) {
        if (a.k == BEX || b.k == BEX) {
            Val &l = a.k == LIN ? a : b;
            l = vInt((u64)concretize(lins[l.a]), w);
            return icmp(pred, a, b, w);
        }
        LinE la = linOf(a), lb = linOf(b);
        LinE d = ladd(la, lb, -1);
        bool uns = pred >= CmpInst::ICMP_UGT && pred <= CmpInst::ICMP_ULE;
        int sp = uns ? pred - CmpInst::ICMP_UGT + CmpInst::ICMP_SGT : pred;
        if (uns) {
            bool na = !decideGe0(la), nb = !decideGe0(lb);
            if (na != nb) { int s = na ? 1 : -1; return vInt(icmpEval(sp, 64, (u64)(i64)s, 0), 1); }
        }
        switch (sp) {   // two-way decisions where possible
        case CmpInst::ICMP_SGE: return vInt(decideGe0(d), 1);
        case CmpInst::ICMP_SLT: return vInt(!decideGe0(d), 1);
        case CmpInst::ICMP_SLE: { LinE z; return vInt(decideGe0(ladd(z, d, -1)), 1); }
        case CmpInst::ICMP_SGT: { LinE z; return vInt(!decideGe0(ladd(z, d, -1)), 1); }
        }
        int s = decideSign(d);
        return vInt(icmpEval(sp, 64, (u64)(i64)s, 0), 1);
    }
    int id = bexMake(Instruction::ICmp, pred, 1, a.k == BEX ? (int)a.a : -1, a.k == INT ? a.a : 0, b.k == BEX ? (int)b.a : -1, b.k == INT ? b.a : 0, -1, 0);
    if (bexs[id].sup.size() > 2) unsupported("comparison of more than two bytes");
    return Val{BEX, 1, 0, id};
}
static Val castVal(unsigned op, Val v, Type *to, int wfrom) {
    int w = to->isIntegerTy() ? to->getIntegerBitWidth() : 64;
    if (v.k == UNDEF) return v;
    if (op == Instruction::PtrToInt || op == Instruction::IntToPtr || op == Instruction::BitCast) {
        if (v.k == PTR && v.obj == OBJ_NULL && !v.w && op == Instruction::PtrToInt) return vInt(v.a, w);
        if (v.k == INT && op == Instruction::IntToPtr) return vPtr(OBJ_NULL, v.a);
        return v;
    }
    if (v.k == INT) return vInt(evalOp(op, 0, w, wfrom, v.a, 0, 0), w);
    if (v.k == LIN) {
        i64 k = concretize(lins[v.a]);
        return vInt(evalOp(op, 0, w, wfrom, (u64)k, 0, 0), w);
    }
    if (v.k == BEX) return Val{BEX, (uint8_t)w, 0, bexMake(op, 0, w, (int)v.a, 0, -1, 0, -1, 0)};
    if (v.k == PTR && op == Instruction::Trunc) unsupported("truncated pointer");
    unsupported("cast");
}

static void setReg(Frame &f, const Instruction &I, const Val &v) { f.r[f.fi->reg[&I]] = v; }

static void pushFrame(Function *F, std::vector<Val> args, const Instruction *cs) {
    if (F->isDeclaration()) throw Stop{"extern", "call of external function " + F->getName().str()};
    if ((int)S->st[S->side].size() > OPT_DEPTH + 60 * (int)OPT_L) throw Stop{"divergence", "unbounded recursion in " + F->getName().str()};
    auto f = std::make_shared<Frame>();
    f->fi = info(F);
    f->r.assign(f->fi->nregs, Val{});
    for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) {
        if (F->getArg(i)->hasByValAttr()) {   // callee's own copy
            Type *t = F->getArg(i)->getParamByValType();
            int o = newObj(DL->getTypeAllocSize(t), "byval");
            Val p = args[i];
            i64 off = constOff(p);
            auto src = S->objs[p.obj];
            i64 sz = DL->getTypeAllocSize(t);
            for (auto &c : src->c) if (c.first >= off && c.first + c.second.first <= off + sz) wobj(o).c[c.first - off] = c.second;
            f->allocas.push_back(o);
            args[i] = vPtr(o, 0);
        }
        f->r[i] = args[i];
    }
    f->pc = F->getEntryBlock().begin();
    f->callSite = cs;
    coveredFns.insert(F);
    S->st[S->side].push_back(f);
}
static void jump(Frame &f, BasicBlock *to) {
    BasicBlock *from = f.pc->getParent();
    // phis in parallel
    std::vector<std::pair<int, Val>> nv;
    for (auto &ph : to->phis()) nv.push_back({f.fi->reg[&ph], evalOperand(f, ph.getIncomingValueForBlock(from))});
    for (auto &p : nv) f.r[p.first] = p.second;
    f.prev = from;
    f.pc = to->getFirstNonPHI()->getIterator();
}
static void memcpyCells(int dobj, i64 doff, int sobj, i64 soff, i64 n) {
    checkAccess(dobj, doff, n, "memcpy");
    checkAccess(sobj, soff, n, "memcpy");
    std::vector<std::pair<i64, std::pair<int, Val>>> cells;
    {
        Obj &so = *S->objs[sobj];
        for (auto &c : so.c) {
            i64 a = c.first, b = a + c.second.first;
            if (b <= soff || a >= soff + n) continue;
            if (a >= soff && b <= soff + n) { cells.push_back({a - soff, c.second}); continue; }
            if (c.second.second.k == INT) {
                for (i64 x = std::max(a, soff); x < std::min(b, soff + n); x++)
                    cells.push_back({x - soff, {1, vInt((u64)c.second.second.a >> (8 * (x - a)), 8)}});
                continue;
            }
            unsupported("memcpy splits a cell");
        }
        if (so.zeroed) {
            // make implicit zero bytes explicit
            std::vector<bool> cov(n, false);
            for (auto &c : cells) for (int i = 0; i < c.second.first; i++) cov[c.first + i] = true;
            for (i64 i = 0; i < n; i++) if (!cov[i]) cells.push_back({i, {1, vInt(0, 8)}});
        }
    }
    Obj &d = wobj(dobj);
    killCells(d, doff, n);
    for (auto &c : cells) d.c[c.first + doff] = c.second;
}
static void memcpyFromInput(int dobj, i64 doff, const LinE &soff, i64 n) {
    checkAccess(dobj, doff, n, "memcpy");
    std::vector<Val> bytes;
    for (i64 i = 0; i < n; i++) { LinE o = soff; o.k += i; bytes.push_back(byteAt(o)); }
    Obj &d = wobj(dobj);
    killCells(d, doff, n);
    for (i64 i = 0; i < n; i++) d.c[doff + i] = {1, bytes[i]};
}

static void reachEvent(const Ev &e) {
    S->ev[S->side] = e;
    S->hasEv[S->side] = true;
    throw SyncPoint{};
}

static Type *i8Ty;
static Val memcmpVal(Val a, Val b, i64 n) {
    for (i64 i = 0; i < n; i++) {
        auto rd = [&](Val p) -> Val {
            LinE o = offOf(p); o.k += i;
            if (p.obj == OBJ_INPUT) return byteAt(o);
            return loadScalar(p.obj, concretize(o), i8Ty);
        };
        Val x = rd(a), y = rd(b);
        if (!decideEq(x, y)) { // order is not needed by the code under analysis
            return vInt(1, 32);
        }
    }
    return vInt(0, 32);
}

// returns true if the call was handled
static bool builtin(Frame &f, CallBase &I, Function *F, std::vector<Val> &a) {
    StringRef n = F->getName();
    auto ret = [&](const Val &v) { if (!I.getType()->isVoidTy()) setReg(f, I, v); ++f.pc; return true; };
    if (auto id = F->getIntrinsicID()) {
        switch (id) {
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
            if (a[1].k == PTR && a[1].obj > OBJ_INPUT && S->objs[a[1].obj] && !S->objs[a[1].obj]->heap && offOf(a[1]).isConst() && offOf(a[1]).k == 0) {
                Obj &o = wobj(a[1].obj);
                o.dead = id == Intrinsic::lifetime_end;
                if (o.dead) o.c.clear();
            }
            return ret(Val{});
        case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start:
        case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore:
            return ret(Val{});
        case Intrinsic::expect: return ret(a[0]);
        case Intrinsic::is_constant: return ret(vInt(0, 1));
        case Intrinsic::objectsize: return ret(vInt(~0ull, 64));
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return ret(a[0]);
        case Intrinsic::memcpy: case Intrinsic::memmove: {
            i64 len;
            if (a[2].k == LIN) len = concretize(lins[a[2].a]); else len = a[2].a;
            if (len == 0) return ret(Val{});
            i64 d = constOff(a[0]);
            if (a[1].obj == OBJ_INPUT) memcpyFromInput(a[0].obj, d, offOf(a[1]), len);
            else memcpyCells(a[0].obj, d, a[1].obj, constOff(a[1]), len);
            return ret(Val{});
        }
        case Intrinsic::memset: {
            i64 len = a[2].k == LIN ? concretize(lins[a[2].a]) : a[2].a;
            if (len == 0) return ret(Val{});
            i64 d = constOff(a[0]);
            checkAccess(a[0].obj, d, len, "memset");
            Obj &o = wobj(a[0].obj);
            killCells(o, d, len);
            if (a[1].k == INT) {
                i64 i = 0;
                // zero words as 8-byte cells where aligned: matches pointer and integer loads
                for (; a[1].a == 0 && i + 8 <= len && (d + i) % 8 == 0; i += 8) o.c[d + i] = {8, vInt(0, 64)};
                for (; i < len; i++) o.c[d + i] = {1, a[1]};
            } else for (i64 i = 0; i < len; i++) o.c[d + i] = {1, a[1]};
            return ret(Val{});
        }
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
            int w = I.getType()->getIntegerBitWidth();
            if (a[0].k == LIN || a[1].k == LIN || (a[0].k == INT && a[1].k == INT)) {
                bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
                bool u = id == Intrinsic::umin || id == Intrinsic::umax;
                Val c = icmp(u ? CmpInst::ICMP_ULE : CmpInst::ICMP_SLE, a[0], a[1], w);
                return ret(decideBool(c) == mn ? a[0] : a[1]);
            }
        } [[fallthrough]];
        case Intrinsic::usub_sat: case Intrinsic::uadd_sat: case Intrinsic::abs: case Intrinsic::ctpop: case Intrinsic::fshl:
        case Intrinsic::fshr: case Intrinsic::bswap: case Intrinsic::cttz: case Intrinsic::ctlz: {
            int w = I.getType()->getIntegerBitWidth();
            for (auto &v : a) if (v.k == LIN) v = vInt((u64)concretize(lins[v.a]), w);
            for (auto &v : a) if (v.k == UNDEF) return ret(Val{});
            bool allc = true;
            for (auto &v : a) allc &= v.k == INT;
            if (allc) return ret(vInt(evalOp(OP_INTR, id, w, w, a[0].a, a.size() > 1 ? a[1].a : 0, a.size() > 2 ? a[2].a : 0), w));
            auto ch = [&](size_t i) { return i < a.size() && a[i].k == BEX ? (int)a[i].a : -1; };
            auto kk = [&](size_t i) -> u64 { return i < a.size() && a[i].k == INT ? a[i].a : 0; };
            return ret(Val{BEX, (uint8_t)w, 0, bexMake(OP_INTR, id, w, ch(0), kk(0), ch(1), kk(1), ch(2), kk(2))});
        }
        case Intrinsic::trap: case Intrinsic::ubsantrap: throw Stop{"trap", "reaches unreachable code"};
        case Intrinsic::stacksave: return ret(vPtr(OBJ_NULL, 0));
        default: unsupported("intrinsic " + n.str());
        }
    }
    if (n == "mr_out") { S->out[S->side].push_back({(int)a[0].a, a[1]}); return ret(Val{}); }
    if (n == "mr_outp") { S->out[S->side].push_back({(int)a[0].a, a[1]}); return ret(Val{}); }
    if (n == "mr_chk") {   // an iterator was moved here
        if (a[0].k == PTR && a[0].obj == OBJ_NULL) throw Stop{"oob", "moves a singular iterator"};
        LinE o = offOf(a[0]);
        if (!decideGe0(o)) throw Stop{"oob", "moves an iterator before the beginning of the input"};
        LinE e; e.t = {{1, 1}};
        if (!decideGe0(ladd(e, o, -1))) throw Stop{"oob", "moves an iterator past the end of the input"};
        return ret(Val{});
    }
    if (n == "mr_ind") return ret(vInt(OPT_IND, 32));
    if (n == "mr_ambient") {   // fresh arbitrary position (shared by both sides): mr_ambient(id)
        if (auto *m = memoFind(50, a)) return ret(m->res);
        int v = freshPos(nullptr, nullptr);
        Val p = posVal(v);
        S->memo.push_back({50, a, p});
        return ret(p);
    }
    if (n == "mr_ambient_in") {   // fresh position in [lo, hi]: mr_ambient_in(id, lo, hi)
        std::vector<Val> key{a[0]};
        if (auto *m = memoFind(51, key)) return ret(m->res);
        LinE lo = offOf(a[1]), hi = offOf(a[2]);
        int v = freshPos(&lo, &hi);
        Val p = posVal(v);
        S->memo.push_back({51, key, p});
        return ret(p);
    }
    if (n == "mr_flip") {   // arbitrary boolean mr_flip(id)
        return ret(vInt(memoBool(52, a), I.getType()->getIntegerBitWidth()));
    }
    if (n == "mr_anybyte") {   // arbitrary byte (shared by both sides)
        if (auto *m = memoFind(53, a)) return ret(m->res);
        int leaf = (int)S->by.leaf.size();
        LinE off; off.k = -1000 - a[0].a;
        S->by.off.push_back(off); S->by.leaf.push_back(leaf);
        BSet all; all.set(); S->by.set.push_back(all);
        nextLeaf = std::max(nextLeaf, leaf + 1);
        Val v{BEX, 8, 0, bexLeaf(leaf)};
        S->memo.push_back({53, a, v});
        return ret(v);
    }
    if (n == "mr_cont") {   // (pos, captures ...) -> bool
        if (OPT_IND) { Ev e; e.kind = 1; e.args = a; reachEvent(e); }
        return ret(vInt(memoBool(1, a), I.getType()->getIntegerBitWidth()));
    }
    if (n == "mr_cont_end") {   // the end position reported by the (successful) continuation
        if (OPT_IND) { Ev e; e.kind = 5; e.args = a; reachEvent(e); }
        if (auto *m = memoFind(2, a)) return ret(m->res);
        int v = freshPos(nullptr, nullptr);
        Val p = posVal(v);
        S->memo.push_back({2, a, p});
        return ret(p);
    }
    if (n == "mr_one") {    // (K, byte) -> bool
        if (OPT_IND) { Ev e; e.kind = 3; e.args = a; reachEvent(e); }
        return ret(vInt(memoBool(3, a), I.getType()->getIntegerBitWidth()));
    }
    if (n == "mr_more") {   // (K, nonzero, pos, dir, i) -> bool
        if (a[4].k == INT && a[4].a >= OPT_CAND) return ret(vInt(0, I.getType()->getIntegerBitWidth()));
        std::vector<Val> key{a[0], a[2], a[3], a[4]};
        if (auto *m = memoFind(4, key)) return ret(vInt(m->res.a, I.getType()->getIntegerBitWidth()));
        if (a[1].a) {   // cannot match the empty string: needs room
            LinE pos = offOf(a[2]);
            LinE e; e.t = {{1, 1}};
            LinE room = (i64)sext(a[3].a, 32) > 0 ? ladd(e, pos, -1) : pos;
            room.k -= 1;
            if (!decideGe0(room)) return ret(vInt(0, I.getType()->getIntegerBitWidth()));
        }
        return ret(vInt(memoBool(4, key), I.getType()->getIntegerBitWidth()));
    }
    if (n == "mr_cand") {   // (K, nonzero, pos, dir, i) -> position
        std::vector<Val> key{a[0], a[2], a[3], a[4]};
        if (auto *m = memoFind(5, key)) return ret(m->res);
        LinE pos = offOf(a[2]);
        int nz = (int)a[1].a;
        int v = (i64)sext(a[3].a, 32) > 0 ? freshPos(&pos, nullptr, nz, 0) : freshPos(nullptr, &pos, 0, nz);
        Val p = posVal(v);
        S->memo.push_back({5, key, p});
        return ret(p);
    }
    if (n == "mr_inner") {  // (K, nonzero, pos, dir, thunk, env, captures ...) -> i32: 0 trace mode, 1 failed, 2 matched
        if (!OPT_IND) return ret(vInt(0, 32));
        Ev e; e.kind = 2; e.args = a; e.thunk = a[4]; e.env = a[5];
        e.args.erase(e.args.begin() + 4, e.args.begin() + 6);
        reachEvent(e);
    }
    if (n == "mr_ret") {    // (matched, end, captures ...)
        if (OPT_IND) { Ev e; e.kind = 4; e.args = a; reachEvent(e); }
        bool m = decideBool(a[0]);
        S->out[S->side].push_back({900, vInt(m, 1)});
        if (m) for (size_t i = 1; i < a.size(); i++) S->out[S->side].push_back({900 + (int)i, a[i]});
        return ret(Val{});
    }
    if (n == "_Znwm" || n == "_Znam" || n == "malloc") {
        if (OPT_PURE) throw Stop{"effect", "allocates memory (" + n.str() + ")"};
        i64 sz = a[0].k == LIN ? concretize(lins[a[0].a]) : a[0].a;
        int o = newObj(sz, "heap");
        S->objs[o]->heap = true;
        return ret(vPtr(o, 0));
    }
    if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "free") {
        if (a[0].k == PTR && a[0].obj > OBJ_INPUT) {
            if (!S->objs[a[0].obj] || !S->objs[a[0].obj]->heap) throw Stop{"dangling", "invalid delete"};
            S->objs[a[0].obj] = nullptr;
        }
        return ret(Val{});
    }
    if (n == "memchr") {
        i64 len = a[2].k == LIN ? concretize(lins[a[2].a]) : a[2].a;
        Val c = a[1].k == INT ? vInt((u64)a[1].a, 8) : castVal(Instruction::Trunc, a[1], i8Ty, 32);
        for (i64 i = 0; i < len; i++) {
            LinE o = offOf(a[0]);
            o.k += i;
            Val byte = a[0].obj == OBJ_INPUT ? byteAt(o) : loadScalar(a[0].obj, concretize(o), i8Ty);
            if (decideEq(byte, c)) return ret(vPtrL(a[0].obj, o));
        }
        return ret(vPtr(OBJ_NULL, 0));
    }
    if (n == "__cxa_guard_acquire") {
        Val g = loadScalar(a[0].obj, constOff(a[0]), i8Ty);
        return ret(vInt(g.k == INT && g.a ? 0 : 1, 32));
    }
    if (n == "__cxa_guard_release") { storeTyped(a[0].obj, constOff(a[0]), i8Ty, vInt(1, 8)); return ret(Val{}); }
    auto emitByte = [&](const Val &v) { S->out[S->side].push_back({200, v.k == INT ? vInt((u64)(i64)(signed char)v.a, 64) : castVal(Instruction::SExt, v, Type::getInt64Ty(i8Ty->getContext()), 8)}); };
    if (n == "mr_os") return ret(vPtr(newObj(512, "ostream"), 0));
    // output streams: every character written is an observation
    if (n == "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c" || n == "_ZNSo3putEc") { emitByte(a[1]); return ret(a[0]); }
    if (n == "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l" || n == "_ZNSo5writeEPKcl") {
        i64 len = a[2].k == LIN ? concretize(lins[a[2].a]) : a[2].a;
        for (i64 i = 0; i < len; i++) {
            LinE o = offOf(a[1]);
            o.k += i;
            emitByte(a[1].obj == OBJ_INPUT ? byteAt(o) : loadScalar(a[1].obj, concretize(o), i8Ty));
        }
        return ret(a[0]);
    }
    if (n == "strlen") unsupported(n.str());
    if (n == "memcmp" || n == "bcmp") {
        i64 len = a[2].k == LIN ? concretize(lins[a[2].a]) : a[2].a;
        return ret(memcmpVal(a[0], a[1], len));
    }
    if (n == "__cxa_throw" || n == "__cxa_allocate_exception" || n == "__cxa_rethrow" || (n.starts_with("_ZSt") && n.contains("__throw_"))) throw Stop{"trap", "throws an exception (" + n.str() + ")"};
    if (n == "__clang_call_terminate" || n == "_ZSt9terminatev" || n == "abort" || n.starts_with("_ZSt24__throw_out_of_range") || n.starts_with("_ZSt20__throw_length_error") ||
        n.starts_with("_ZSt19__throw_logic_error") || n.starts_with("__assert_fail") || n.starts_with("_ZSt21__glibcxx_assert_fail"))
        throw Stop{"trap", "calls " + n.str()};
    return false;
}

// executes one instruction of the current side
static void step() {
    totalSteps++;
    S->sinceFork++;
    Frame &f = top();
    Instruction &I = *f.pc;
    switch (I.getOpcode()) {
    case Instruction::Alloca: {
        auto &A = cast<AllocaInst>(I);
        u64 sz = DL->getTypeAllocSize(A.getAllocatedType());
        if (A.isArrayAllocation()) {
            Val c = evalOperand(f, A.getArraySize());
            if (c.k != INT) unsupported("variable alloca");
            sz *= c.a;
        }
        int o = newObj(sz, "local");
        f.allocas.push_back(o);
        setReg(f, I, vPtr(o, 0));
        ++f.pc;
        return;
    }
    case Instruction::Load: {
        Val p = evalOperand(f, I.getOperand(0));
        if (p.k == UNDEF) throw Stop{"undef", "load through an undefined pointer"};
        if (p.k != PTR) { if (p.k == INT) throw Stop{"null", "load through an integer address"}; unsupported("load through non-pointer"); }
        if (p.obj == OBJ_INPUT) {
            i64 sz = DL->getTypeStoreSize(I.getType());
            if (sz != 1) {
                int w = sz * 8, cur = -1;
                for (i64 i = 0; i < sz; i++) {
                    LinE o = offOf(p); o.k += i;
                    int id = bexMake(Instruction::ZExt, 0, w, (int)byteAt(o).a, 0, -1, 0, -1, 0);
                    if (i) id = bexMake(Instruction::Shl, 0, w, id, 0, -1, 8 * i, -1, 0);
                    cur = cur < 0 ? id : bexMake(Instruction::Or, 0, w, cur, 0, id, 0, -1, 0);
                }
                setReg(f, I, Val{BEX, (uint8_t)w, 0, cur});
                ++f.pc;
                return;
            }
            Val v = byteAt(offOf(p));
            if (I.getType()->isIntegerTy(1)) unsupported("i1 input");
            setReg(f, I, v);
            ++f.pc;
            return;
        }
        if (OPT_PURE && S->side == 0 && p.obj > OBJ_INPUT && S->objs[p.obj] && S->objs[p.obj]->mut) throw Stop{"effect", "reads the mutable variable " + S->objs[p.obj]->name};
        setReg(f, I, loadTyped(p.obj, constOff(p), I.getType()));
        ++f.pc;
        return;
    }
    case Instruction::Store: {
        Val v = evalOperand(f, I.getOperand(0));
        Val p = evalOperand(f, I.getOperand(1));
        if (p.k == UNDEF) throw Stop{"undef", "store through an undefined pointer"};
        if (p.k != PTR) unsupported("store through non-pointer");
        if (p.obj == OBJ_INPUT) throw Stop{"write", "writes to the input"};
        if (OPT_PURE && S->side == 0 && p.obj > OBJ_INPUT && S->objs[p.obj] && S->objs[p.obj]->mut) throw Stop{"effect", "writes the variable " + S->objs[p.obj]->name};
        storeTyped(p.obj, constOff(p), I.getOperand(0)->getType(), v);
        ++f.pc;
        return;
    }
    case Instruction::GetElementPtr: {
        auto &G = cast<GEPOperator>(I);
        Val b = evalOperand(f, G.getPointerOperand());
        if (b.k == UNDEF) { setReg(f, I, Val{}); ++f.pc; return; }
        if (b.k == INT) b = vPtr(OBJ_NULL, b.a);
        if (b.k != PTR) unsupported("gep base");
        LinE off = offOf(b);
        int lutBex = -1; i64 lutScale = 1;
        for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
            Value *idx = gti.getOperand();
            if (StructType *st = gti.getStructTypeOrNull()) {
                off.k += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                continue;
            }
            i64 es = DL->getTypeAllocSize(gti.getIndexedType());
            Val iv = evalOperand(f, idx);
            if (iv.k == UNDEF) { setReg(f, I, Val{}); ++f.pc; return; }
            if (iv.k == BEX) {
                if (lutBex >= 0) unsupported("two byte indices");
                u64 c = concretizeBex((int)iv.a);
                off.k += es * sext(c, bexW(iv.a));
                (void)lutScale;
                continue;
            }
            if (iv.k == PTR) unsupported("pointer index");
            off = ladd(off, linOf(iv), es);
        }
        setReg(f, I, vPtrL(b.obj, off));
        ++f.pc;
        return;
    }
    case Instruction::ICmp: {
        auto &C = cast<ICmpInst>(I);
        Type *t = I.getOperand(0)->getType();
        if (t->isVectorTy()) unsupported("vector compare");
        int w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64;
        Val v = icmp(C.getPredicate(), evalOperand(f, I.getOperand(0)), evalOperand(f, I.getOperand(1)), w);
        Frame &g = top();
        setReg(g, I, v);
        ++g.pc;
        return;
    }
    case Instruction::Br: {
        auto &B = cast<BranchInst>(I);
        if (!B.isConditional()) { jump(f, B.getSuccessor(0)); return; }
        bool c = decideBool(evalOperand(f, B.getCondition()));
        Frame &g = top();
        S->trail[S->side].push_back({&I, c});
        if (S->trail[S->side].size() > 4000) S->trail[S->side].erase(S->trail[S->side].begin(), S->trail[S->side].begin() + 2000);
        jump(g, B.getSuccessor(c ? 0 : 1));
        return;
    }
    case Instruction::Switch: {
        auto &W = cast<SwitchInst>(I);
        Val v = evalOperand(f, W.getCondition());
        if (v.k == UNDEF) throw Stop{"undef", "switch on an undefined value"};
        int w = W.getCondition()->getType()->getIntegerBitWidth();
        if (v.k == LIN) v = vInt((u64)concretize(lins[v.a]), w);
        BasicBlock *dest = W.getDefaultDest();
        if (v.k == BEX) {
            for (auto &c : W.cases()) {
                Val t = icmp(CmpInst::ICMP_EQ, v, vInt(c.getCaseValue()->getZExtValue(), w), w);
                if (decideBool(t)) { dest = c.getCaseSuccessor(); break; }
            }
        } else
            for (auto &c : W.cases()) if (c.getCaseValue()->getZExtValue() == (u64)v.a) { dest = c.getCaseSuccessor(); break; }
        jump(top(), dest);
        return;
    }
    case Instruction::Select: {
        Val c = evalOperand(f, I.getOperand(0)), a = evalOperand(f, I.getOperand(1)), b = evalOperand(f, I.getOperand(2));
        Val r;
        if (c.k == UNDEF) r = Val{};
        else if (a == b) r = a;
        else if (c.k == INT) r = c.a ? a : b;
        else {
            bool sym = c.k == BEX && I.getType()->isIntegerTy() && (a.k == INT || a.k == BEX) && (b.k == INT || b.k == BEX);
            if (sym) {
                std::set<int> s(bexs[c.a].sup.begin(), bexs[c.a].sup.end());
                for (auto &v : {a, b}) if (v.k == BEX) s.insert(bexs[v.a].sup.begin(), bexs[v.a].sup.end());
                if (s.size() > 1) sym = false;
            }
            if (sym) {
                int w = I.getType()->getIntegerBitWidth();
                r = Val{BEX, (uint8_t)w, 0, bexMake(OP_SELECT, 0, w, (int)c.a, 0, a.k == BEX ? (int)a.a : -1, a.k == INT ? a.a : 0,
                                                    b.k == BEX ? (int)b.a : -1, b.k == INT ? b.a : 0)};
            } else r = decideBool(c) ? a : b;
        }
        Frame &g = top();
        setReg(g, I, r);
        ++g.pc;
        return;
    }
    case Instruction::PHI: unsupported("phi at entry");
    case Instruction::ExtractValue: {
        auto &E = cast<ExtractValueInst>(I);
        Val v = evalOperand(f, E.getAggregateOperand());
        for (unsigned i : E.indices()) { if (v.k != AGG) { v = Val{}; break; } v = aggs[v.a][i]; }
        setReg(f, I, v);
        ++f.pc;
        return;
    }
    case Instruction::InsertValue: {
        auto &E = cast<InsertValueInst>(I);
        Val ag = evalOperand(f, E.getAggregateOperand());
        Val x = evalOperand(f, E.getInsertedValueOperand());
        std::function<Val(Val, Type *, ArrayRef<unsigned>)> ins = [&](Val v, Type *t, ArrayRef<unsigned> idx) -> Val {
            if (idx.empty()) return x;
            std::vector<Val> e;
            if (v.k == AGG) e = aggs[v.a]; else { Val u = undefOf(t); e = aggs[u.a]; }
            Type *st = isa<StructType>(t) ? cast<StructType>(t)->getElementType(idx[0]) : cast<ArrayType>(t)->getElementType();
            e[idx[0]] = ins(e[idx[0]], st, idx.drop_front());
            return vAgg(e);
        };
        setReg(f, I, ins(ag, I.getType(), E.getIndices()));
        ++f.pc;
        return;
    }
    case Instruction::Freeze: {
        Val v = evalOperand(f, I.getOperand(0));
        if (v.k == UNDEF) v = zeroOf(I.getType());
        setReg(f, I, v);
        ++f.pc;
        return;
    }
    case Instruction::Ret: {
        Val v;
        if (I.getNumOperands()) v = evalOperand(f, I.getOperand(0));
        for (int o : f.allocas) S->objs[o] = nullptr;
        const Instruction *cs = f.callSite;
        S->st[S->side].pop_back();
        if (S->st[S->side].empty()) { S->done[S->side] = true; S->ret[S->side] = v; return; }
        Frame &g = top();
        if (cs) {
            if (!cs->getType()->isVoidTy()) setReg(g, *cs, v);
            if (auto *inv = dyn_cast<InvokeInst>(cs)) jump(g, inv->getNormalDest());
            else ++g.pc;
        }
        return;
    }
    case Instruction::Invoke:
    case Instruction::Call: {
        auto &C = cast<CallBase>(I);
        Function *F = C.getCalledFunction();
        if (!F) {
            Val v = evalOperand(f, C.getCalledOperand());
            if (v.k != FN) unsupported("indirect call");
            F = (Function *)(intptr_t)v.a;
        }
        std::vector<Val> args;
        for (auto &x : C.args()) {
            if (x->getType()->isMetadataTy()) { args.push_back(Val{}); continue; }
            args.push_back(evalOperand(f, x.get()));
        }
        if (builtin(f, C, F, args)) {
            if (isa<InvokeInst>(I)) { Frame &g = top(); g.pc = I.getIterator(); jump(g, cast<InvokeInst>(I).getNormalDest()); }
            return;
        }
        pushFrame(F, args, &I);
        return;
    }
    case Instruction::Unreachable: throw Stop{"trap", "reaches unreachable code"};
    default: break;
    }
    if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
        if (I.getType()->isVectorTy()) unsupported("vector op");
        Val v = binop(*bo, evalOperand(f, I.getOperand(0)), evalOperand(f, I.getOperand(1)));
        Frame &g = top();
        setReg(g, I, v);
        ++g.pc;
        return;
    }
    if (auto *ca = dyn_cast<CastInst>(&I)) {
        Type *ft = I.getOperand(0)->getType();
        int wf = ft->isIntegerTy() ? ft->getIntegerBitWidth() : 64;
        Val v = castVal(ca->getOpcode(), evalOperand(f, I.getOperand(0)), I.getType(), wf);
        Frame &g = top();
        setReg(g, I, v);
        ++g.pc;
        return;
    }
    unsupported(string("instruction ") + I.getOpcodeName());
}

// ---------------------------------------------------------------------------------------------
// witnesses
static string linStr(const LinE &l) {
    string s;
    for (auto &p : l.t) { s += (s.empty() ? "" : "+"); if (p.second != 1) s += std::to_string(p.second) + "*"; s += p.first == 1 ? "end" : "p" + std::to_string(p.first); }
    if (l.k || s.empty()) s += (s.empty() || l.k < 0 ? "" : "+") + std::to_string(l.k);
    return s;
}
static string valStr(const Val &v) {
    switch (v.k) {
    case UNDEF: return "undef";
    case INT: return std::to_string(sext(v.a, v.w == 1 ? 8 : v.w));
    case LIN: return linStr(lins[v.a]);
    case BEX: return "byte-expr";
    case PTR: return v.obj == OBJ_INPUT ? "input[" + linStr(offOf(v)) + "]" : v.obj == OBJ_NULL ? "null" : "object";
    case FN: return "fn";
    case AGG: return "{...}";
    }
    return "?";
}
// a concrete model of the state: shows that the partition is not empty; false if none is found
static bool model(State &s0, std::map<int, i64> &pos, std::vector<int> &bytes, string &text) {
    State s = s0;
    S = &s;
    for (int v = 1; v < s.z.n; v++) {
        i64 lo = s.z.get(0, v) >= INF ? 0 : -s.z.get(0, v);
        if (!s.z.add(v, 0, lo) || !s.z.add(0, v, -lo)) return false;
        pos[v] = lo;
    }
    int nb = s.by.leaf.size();
    bytes.assign(nb, -1);
    // prefer printable bytes
    std::vector<int> order;
    for (int c = 'a'; c <= 'z'; c++) order.push_back(c);
    for (int c = 33; c < 127; c++) if (c < 'a' || c > 'z') order.push_back(c);
    for (int c = 0; c < 256; c++) if (c < 33 || c >= 127) order.push_back(c);
    std::function<bool(int)> go = [&](int i) {
        if (i == nb) return true;
        for (int c : order) {
            if (!s.by.set[i][c]) continue;
            bool ok = true;
            bytes[i] = c;
            for (auto &r : s.by.rel) if (r.j == i && bytes[r.i] >= 0 && !(*r.r)[bytes[r.i]][c]) { ok = false; break; }
            if (ok && go(i + 1)) return true;
        }
        bytes[i] = -1;
        return false;
    };
    if (!go(0)) return false;
    i64 n = pos.count(1) ? pos[1] : 0;
    std::vector<int> in(n, 'x');
    std::ostringstream os;
    for (int i = 0; i < nb; i++) {
        LinE o = s.by.off[i];
        i64 p = o.k;
        for (auto &t : o.t) p += t.second * pos[t.first];
        if (p >= 0 && p < n) in[p] = bytes[i];
        else if (o.k <= -1000) os << "byte#" << (-1000 - o.k) << "=" << bytes[i] << " ";
    }
    os << "input=\"";
    for (int c : in) { if (c >= 33 && c < 127 && c != '"' && c != '\\') os << (char)c; else { char b[8]; snprintf(b, 8, "\\x%02x", c); os << b; } }
    os << "\"";
    for (int v = 2; v < s.z.n; v++) os << " p" << v << "=" << pos[v];
    for (auto &m : s.memo) {
        if (m.fn == 50 || m.fn == 51 || m.fn == 53) continue;
        static const char *nm[] = {"?", "cont", "cont_end", "one", "inner_more", "inner_pos"};
        os << " " << (m.fn < 6 ? nm[m.fn] : "flip") << "(";
        for (size_t i = 0; i < m.args.size(); i++) os << (i ? "," : "") << valStr(m.args[i]);
        os << ")=" << valStr(m.res);
    }
    text = os.str();
    return true;
}

// ---------------------------------------------------------------------------------------------
struct Verdict {
    string status = "ok";   // ok | violation | inconclusive
    string kind, detail, witness;
    std::vector<string> sites;
    std::map<string, int> inconclusive;
};
static std::vector<string> sitesOf(State &s) {
    std::vector<string> r;
    std::set<string> seen;
    for (auto it = s.st[0].rbegin(); it != s.st[0].rend() && r.size() < 6; ++it) {
        string l = libLoc(&*(*it)->pc);
        if (!l.empty() && seen.insert(l).second) r.push_back(l);
    }
    for (auto it = s.trail[0].rbegin(); it != s.trail[0].rend() && r.size() < 12; ++it) {
        string l = libLoc(it->first);
        if (!l.empty() && seen.insert(l).second) r.push_back(l);
    }
    return r;
}
static string outStr(const std::vector<OutItem> &o) {
    string s = "[";
    for (auto &x : o) s += (s.size() > 1 ? ", " : "") + std::to_string(x.tag) + ":" + valStr(x.v);
    return s + "]";
}

// compares the outcomes of both sides; forks if needed; true if equal
static bool compareOut(string &why) {
    auto &a = S->out[0], &b = S->out[1];
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; i++) {
        if (a[i].tag != b[i].tag) { why = "different observations: tag " + std::to_string(a[i].tag) + " vs " + std::to_string(b[i].tag); return false; }
        if (a[i].v.k == UNDEF) throw Stop{"undef", "an observed result is undefined (tag " + std::to_string(a[i].tag) + ")"};
        if (!decideEq(a[i].v, b[i].v)) {
            why = "observation " + std::to_string(a[i].tag) + ": library " + valStr(a[i].v) + ", reference " + valStr(b[i].v);
            return false;
        }
    }
    if (a.size() != b.size()) { why = "different number of observations"; return false; }
    return true;
}

static Verdict analyse(Module &M, const string &name, bool single) {
    Verdict V;
    Function *FI = M.getFunction("I_" + name), *FR = M.getFunction("R_" + name);
    work.clear();
    totalSteps = totalPaths = totalForks = 0;
    State init;
    S = &init;
    init.objs.resize(2);
    init.objs[OBJ_INPUT] = std::make_shared<Obj>();
    init.objs[OBJ_INPUT]->name = "input";
    LinE e; e.t = {{1, 1}};
    init.z.add(0, 1, 0);              // 0 <= end
    init.z.add(1, 0, OPT_L);          // end <= L
    int c = init.z.addVar();
    init.z.add(0, c, 0);
    init.z.add(c, 1, 0);
    auto args = [&](Function *F) {
        std::vector<Val> a;
        a.push_back(vPtr(OBJ_INPUT, 0));
        a.push_back(posVal(1));
        if (F->arg_size() > 2) a.push_back(posVal(c));
        return a;
    };
    init.side = 1;
    if (!single) pushFrame(FR, args(FR), nullptr);
    init.side = 0;
    pushFrame(FI, args(FI), nullptr);
    if (single) init.done[1] = true;
    work.push_back(init);
    u64 states = 0;
    while (!work.empty()) {
        State cur = std::move(work.back());
        work.pop_back();
        S = &cur;
        if (++states > OPT_STATES || totalSteps > OPT_STEPS) {
            V.inconclusive["budget exhausted"]++;
            break;
        }
        bool mism = false;
        string why;
        try {
            while (true) {
                if (!cur.done[cur.side]) { step(); if (cur.sinceFork > 4000000ull * (1 + OPT_L / 16)) { if (OPT_L > 12) unsupported("too many steps in one partition"); throw Stop{"divergence", "does not terminate"}; } continue; }
                if (cur.side == 0) { cur.side = 1; if (!cur.done[1]) continue; }
                if (single) {
                    cur.side = 0;
                    for (auto &o : cur.out[0]) if (o.v.k == UNDEF) throw Stop{"undef", "an observed result is undefined (tag " + std::to_string(o.tag) + ")"};
                }
                else if (!compareOut(why)) { mism = true; }
                break;
            }
            totalPaths++;
        } catch (Fork &) {
            continue;
        } catch (Stop &st) {
            if (st.kind == "infeasible") continue;
            if (st.kind == "unsupported" || st.kind == "extern") {
                if (st.kind == "extern" && cur.side == 0 && single) {}
                V.inconclusive[st.msg]++;
                if (OPT_DEBUG) fprintf(stderr, "%s: %s at %s side %d\n", name.c_str(), st.msg.c_str(), cur.st[cur.side].empty() ? "?" : locOf(&*cur.st[cur.side].back()->pc).c_str(), cur.side);
                if (V.inconclusive.size() > 20 || V.inconclusive[st.msg] > 50) break;
                continue;
            }
            if (cur.side == 1) {   // a defect of the reference itself
                V.inconclusive["reference: " + st.kind + " " + st.msg]++;
                continue;
            }
            std::map<int, i64> pos; std::vector<int> by; string w;
            State keep = cur;
            if (!model(keep, pos, by, w)) continue;
            V.status = "violation"; V.kind = st.kind; V.detail = st.msg; V.witness = w; V.sites = sitesOf(cur);
            return V;
        }
        if (mism) {
            std::map<int, i64> pos; std::vector<int> by; string w;
            State keep = cur;
            if (!model(keep, pos, by, w)) continue;
            S = &cur;
            V.status = "violation"; V.kind = "mismatch"; V.detail = why + "; library " + outStr(cur.out[0]) + " reference " + outStr(cur.out[1]);
            V.witness = w; V.sites = sitesOf(cur);
            return V;
        }
    }
    if (!V.inconclusive.empty()) V.status = "inconclusive";
    totalStates = states;
    return V;
}

// ---- effects: everything a root can reach in the call graph ------------------------------------------
static void scanEffects(const string &name, Function *root) {
    std::map<const Function *, const Function *> from;
    std::vector<const Function *> todo{root};
    from[root] = nullptr;
    u64 calls = 0, stores = 0, loads = 0;
    std::vector<string> eff, sites;
    auto chain = [&](const Function *f, const Instruction *I) {
        string s = I ? locOf(I) : "";
        int k = 0;
        for (; f && k < 40; f = from[f], k++) if (auto *sp = f->getSubprogram()) {
            string fl = sp->getFilename().str();
            size_t q = fl.find("include/mregex/");
            if (q != string::npos) { s = fl.substr(q) + ":" + std::to_string(sp->getLine()) + " in " + sp->getName().str() + (s.empty() ? "" : " (" + s + ")"); break; }
        }
        return s;
    };
    auto add = [&](const string &e, const Function *f, const Instruction *I) { if (eff.size() < 20) { eff.push_back(e); sites.push_back(chain(f, I)); } };
    std::function<void(const Value *, const Function *, const Instruction *)> uses = [&](const Value *v, const Function *f, const Instruction *I) {
        if (auto *g = dyn_cast<GlobalVariable>(v)) { if (!g->isConstant()) add("uses the mutable variable " + g->getName().str(), f, I); return; }
        if (auto *ce = dyn_cast<ConstantExpr>(v)) for (auto &op : ce->operands()) uses(op.get(), f, I);
    };
    while (!todo.empty()) {
        const Function *f = todo.back();
        todo.pop_back();
        for (auto &bb : *f) for (auto &I : bb) {
            for (auto &op : I.operands()) {
                uses(op.get(), f, &I);
                if (auto *g = dyn_cast<Function>(op->stripPointerCasts())) {
                    if (g->isIntrinsic()) continue;
                    if (!from.count(g)) { from[g] = f; if (!g->isDeclaration()) todo.push_back(g); }
                }
            }
            if (auto *s = dyn_cast<StoreInst>(&I)) { stores++; if (s->isVolatile() || s->isAtomic()) add("volatile or atomic store", f, &I); }
            else if (auto *l = dyn_cast<LoadInst>(&I)) { loads++; if (l->isVolatile() || l->isAtomic()) add("volatile or atomic load", f, &I); }
            else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<FenceInst>(I)) add("atomic operation", f, &I);
            else if (auto *c = dyn_cast<CallBase>(&I)) {
                calls++;
                if (c->isInlineAsm()) { add("inline assembly", f, &I); continue; }
                Function *g = c->getCalledFunction();
                if (!g) continue;      // through a value whose functions are followed as operands
                if (g->isIntrinsic() || !g->isDeclaration()) continue;
                StringRef n = g->getName();
                static const std::set<string> pure = {"memcmp", "bcmp", "memchr", "memcpy", "memmove", "memset", "strlen", "__cxa_begin_catch", "__cxa_end_catch", "_ZSt9terminatev", "__gxx_personality_v0", "abort", "_Unwind_Resume", "__clang_call_terminate"};
                if (n.starts_with("mr_") || pure.count(n.str())) continue;
                if (n.starts_with("_ZSt") && n.contains("__throw_")) continue;      // decided by the interpretation: is it reached?
                if (n == "__assert_fail" || n.contains("__glibcxx_assert_fail")) continue;
                string what = n.starts_with("_Zn") || n == "malloc" || n == "calloc" || n == "realloc" ? "allocates memory (" : n.starts_with("__cxa_throw") || n.starts_with("__cxa_allocate_exception") || n.starts_with("__cxa_rethrow") ? "throws an exception (" : n.starts_with("__cxa_guard") ? "initialises a static variable (" : n.starts_with("_Zd") || n == "free" ? "" : "calls an external function (";
                if (what.empty()) continue;
                add(what + n.str() + ")", f, &I);
            }
        }
    }
    u64 defs = 0;
    std::set<string> fns;
    for (auto &x : from) if (!x.first->isDeclaration()) {
        defs++;
        if (auto *sp = x.first->getSubprogram()) {
            string fl = sp->getFilename().str();
            size_t q = fl.find("include/mregex/");
            if (q != string::npos) fns.insert(fl.substr(q + 15) + ":" + sp->getName().str());
        }
    }
    printf("{\"root\":\"%s\",\"status\":\"%s\",\"kind\":\"effect\",\"detail\":\"%s\",\"witness\":\"\",\"paths\":%llu,\"states\":%llu,\"steps\":%llu,\"sec\":0,\"sites\":[", name.c_str(),
           eff.empty() ? "ok" : "violation", eff.empty() ? "" : jesc(eff[0]).c_str(), (unsigned long long)calls, (unsigned long long)defs, (unsigned long long)(calls + stores + loads));
    for (size_t i = 0; i < sites.size(); i++) printf("%s\"%s: %s\"", i ? "," : "", jesc(sites[i]).c_str(), jesc(eff[i]).c_str());
    printf("],\"inconclusive\":{},\"functions\":[");
    bool first = true;
    for (auto &x : fns) { printf("%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
    printf("]}\n");
    fflush(stdout);
}

int main(int argc, char **argv) {
    string file;
    std::vector<string> names;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        if (a == "--L") OPT_L = atoi(argv[++i]);
        else if (a == "--cand") OPT_CAND = atoi(argv[++i]);
        else if (a == "--steps") OPT_STEPS = strtoull(argv[++i], 0, 10);
        else if (a == "--states") OPT_STATES = strtoull(argv[++i], 0, 10);
        else if (a == "--ind") OPT_IND = true;
        else if (a == "--debug") OPT_DEBUG = true;
        else if (a == "--pure") OPT_PURE = true;
        else if (a == "--safety") OPT_SAFETY = true;   // only memory safety: the other side is not analysed
        else if (a == "--effects") OPT_EFFECTS = true;
        else if (file.empty()) file = a;
        else names.push_back(a);
    }
    LLVMContext C;
    SMDiagnostic D;
    auto M = parseIRFile(file, D, C);
    if (!M) { D.print("mrai", errs()); return 2; }
    {   // promote memory to registers only: the IR stays a direct image of the source
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (auto Err = PB.parsePassPipeline(MPM, "function(sroa,instsimplify)")) { errs() << "pipeline\n"; return 2; }
        MPM.run(*M, MAM);
    }
    DL = &M->getDataLayout();
    i8Ty = IntegerType::get(C, 8);
    if (names.empty())
        for (auto &F : *M) if (F.getName().starts_with("I_") && !F.isDeclaration()) names.push_back(F.getName().substr(2).str());
    for (auto &n : names) {
        Function *FI = M->getFunction("I_" + n), *FR = M->getFunction("R_" + n);
        if (!FI) { printf("{\"root\":\"%s\",\"status\":\"missing\"}\n", n.c_str()); continue; }
        if (OPT_EFFECTS) { scanEffects(n, FI); continue; }
        int L0 = OPT_L;
        // a root may carry its own length bound: suffix _L<k>
        size_t p = n.rfind("_L");
        if (p != string::npos && p + 2 < n.size() && isdigit(n[p + 2])) OPT_L = atoi(n.c_str() + p + 2);
        linIds.clear(); lins.clear(); bexs.clear(); bexIds.clear(); aggs.clear(); coveredFns.clear();
        auto t0 = std::chrono::steady_clock::now();
        Verdict V;
        try { V = analyse(*M, n, !FR || OPT_SAFETY); } catch (Stop &s) { V.status = "inconclusive"; V.inconclusive[s.kind + " " + s.msg]++; } catch (Fork &) { V.status = "inconclusive"; V.inconclusive["fork at top"]++; }
        double sec = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        OPT_L = L0;
        std::set<string> fns;
        for (auto *f : coveredFns) if (auto *sp = f->getSubprogram()) {
            string fl = sp->getFilename().str();
            size_t q = fl.find("include/mregex/");
            if (q != string::npos) fns.insert(fl.substr(q + 15) + ":" + sp->getName().str());
        }
        for (auto *f : coveredFns) for (auto &bb : *f) for (auto &I : bb) for (const DILocation *dl = I.getDebugLoc().get(); dl; dl = dl->getInlinedAt()) {
            string fl = dl->getFilename().str();
            size_t q = fl.find("include/mregex/");
            if (q != string::npos) if (auto *sp = dl->getScope()->getSubprogram()) fns.insert(fl.substr(q + 15) + ":" + sp->getName().str());
        }
        printf("{\"root\":\"%s\",\"status\":\"%s\",\"kind\":\"%s\",\"detail\":\"%s\",\"witness\":\"%s\",\"paths\":%llu,\"states\":%llu,\"steps\":%llu,\"sec\":%.3f,\"sites\":[",
               n.c_str(), V.status.c_str(), V.kind.c_str(), jesc(V.detail).c_str(), jesc(V.witness).c_str(), (unsigned long long)totalPaths,
               (unsigned long long)totalStates, (unsigned long long)totalSteps, sec);
        for (size_t i = 0; i < V.sites.size(); i++) printf("%s\"%s\"", i ? "," : "", jesc(V.sites[i]).c_str());
        printf("],\"inconclusive\":{");
        bool first = true;
        for (auto &x : V.inconclusive) { printf("%s\"%s\":%d", first ? "" : ",", jesc(x.first).c_str(), x.second); first = false; }
        printf("},\"functions\":[");
        first = true;
        for (auto &x : fns) { printf("%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
        printf("]}\n");
        fflush(stdout);
    }
    return 0;
}
