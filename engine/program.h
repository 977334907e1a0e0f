// Decoding of LLVM IR into a compact form for the interpreter.
#pragma once
#include "expr.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

struct V { u64 c; const Expr *e; };
static const Expr UNINIT_EXPR{};
static const Expr *const UNINIT = &UNINIT_EXPR;

struct Opnd { int reg = -1; std::vector<V> cv; };        // constant slots when reg < 0
struct Piece { unsigned off, w; };                        // scalar piece of a type: byte offset, bit width

enum IOp : uint8_t { I_NOP, I_BIN, I_ICMP, I_SELECT, I_CAST, I_FREEZE, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET,
    I_CALL, I_CMPXCHG, I_RMW, I_FENCE, I_EXTRACTV, I_INSERTV, I_LANDINGPAD, I_RESUME, I_UNREACHABLE, I_FBIN, I_FCMP, I_FNEG,
    I_EXTRACTE, I_INSERTE, I_SHUFFLE, I_INTRIN, I_BADOP };

struct Func;
struct Edge { int target = -1; std::vector<std::pair<int, Opnd>> copies; std::vector<int> copyN; };
struct GepTerm { Opnd idx; u64 scale; unsigned w; };
struct Inst {
    IOp op = I_NOP; uint8_t sub = 0; bool vis = false, atomic = false;
    unsigned w = 0, w2 = 0; int n = 1;                    // result width, operand width, slots
    int dst = -1; int dstN = 0;
    std::vector<Opnd> ops;
    std::vector<Piece> pieces;
    std::vector<GepTerm> gep; u64 imm = 0; u64 size = 0;
    Edge e1, e2; std::vector<std::pair<u64, Edge>> cases;
    Func *callee = nullptr; int intrin = 0; bool invoke = false;
    std::vector<int> idx;
    std::vector<std::pair<bool, Opnd>> clauses; bool cleanup = false; // catch?
    const llvm::Instruction *I = nullptr; int sp = -1, line = 0; int block = 0;
    std::vector<uint32_t> live;                           // live registers before the instruction (scheduling points and calls)
};
struct Func {
    std::string name; int id = 0; int nregs = 0; std::vector<Inst> code; std::vector<int> blockStart; std::vector<std::pair<int, int>> args;
    bool decl = true; int builtin = -1; const llvm::Function *F = nullptr; std::vector<char> covered; u64 addr = 0; bool decoded = false;
};
