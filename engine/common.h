#pragma once
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <functional>
// "file:line (function)" of an instruction, following inlined-at to the outermost frame on request
std::string locOf(const llvm::Instruction *I, bool chain = true);
std::string fileLine(const llvm::Instruction *I);
std::string funcOf(const llvm::Instruction *I); // source-level function name
int cmdEffects(llvm::Module &M, const std::vector<std::string> &args);
int cmdCprop(llvm::Module &M, const std::vector<std::string> &args);
int cmdAbsint(llvm::Module &M, const std::vector<std::string> &args);
int cmdBits(llvm::Module &M, const std::vector<std::string> &args);
int cmdLayout(llvm::Module &M, const std::vector<std::string> &args);
int cmdTerms(llvm::Module &M, const std::vector<std::string> &args);
int cmdChars(llvm::Module &M, const std::vector<std::string> &args);
void emit(llvm::json::Object o);
