//! Hand written declarations of the part of the LLVM-C API we use.
#![allow(non_camel_case_types, dead_code)]
use std::os::raw::{c_char, c_int, c_uint, c_ulonglong};
pub enum Opq {}
pub type Ctx = *mut Opq;
pub type Module = *mut Opq;
pub type Value = *mut Opq;
pub type Type = *mut Opq;
pub type Block = *mut Opq;
pub type MemBuf = *mut Opq;
pub type TData = *mut Opq;
extern "C" {
    pub fn LLVMContextCreate() -> Ctx;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut MemBuf, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(c: Ctx, b: MemBuf, out: *mut Module) -> c_int;
    pub fn LLVMGetModuleDataLayout(m: Module) -> TData;
    pub fn LLVMGetFirstFunction(m: Module) -> Value;
    pub fn LLVMGetNextFunction(v: Value) -> Value;
    pub fn LLVMGetFirstGlobal(m: Module) -> Value;
    pub fn LLVMGetNextGlobal(v: Value) -> Value;
    pub fn LLVMGetValueName2(v: Value, len: *mut usize) -> *const c_char;
    pub fn LLVMIsDeclaration(v: Value) -> c_int;
    pub fn LLVMCountParams(f: Value) -> c_uint;
    pub fn LLVMGetParam(f: Value, i: c_uint) -> Value;
    pub fn LLVMGetFirstBasicBlock(f: Value) -> Block;
    pub fn LLVMGetNextBasicBlock(b: Block) -> Block;
    pub fn LLVMGetFirstInstruction(b: Block) -> Value;
    pub fn LLVMGetNextInstruction(v: Value) -> Value;
    pub fn LLVMGetInstructionOpcode(v: Value) -> c_int;
    pub fn LLVMGetNumOperands(v: Value) -> c_int;
    pub fn LLVMGetOperand(v: Value, i: c_uint) -> Value;
    pub fn LLVMTypeOf(v: Value) -> Type;
    pub fn LLVMGetTypeKind(t: Type) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: Type) -> c_uint;
    pub fn LLVMGetElementType(t: Type) -> Type;
    pub fn LLVMGetVectorSize(t: Type) -> c_uint;
    pub fn LLVMGetArrayLength2(t: Type) -> u64;
    pub fn LLVMCountStructElementTypes(t: Type) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: Type, i: c_uint) -> Type;
    pub fn LLVMOffsetOfElement(td: TData, t: Type, i: c_uint) -> c_ulonglong;
    pub fn LLVMABISizeOfType(td: TData, t: Type) -> c_ulonglong;
    pub fn LLVMStoreSizeOfType(td: TData, t: Type) -> c_ulonglong;
    pub fn LLVMABIAlignmentOfType(td: TData, t: Type) -> c_uint;
    pub fn LLVMGetAlignment(v: Value) -> c_uint;
    pub fn LLVMGetValueKind(v: Value) -> c_int;
    pub fn LLVMIsConstant(v: Value) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: Value) -> c_ulonglong;
    pub fn LLVMConstRealGetDouble(v: Value, loses: *mut c_int) -> f64;
    pub fn LLVMGetAggregateElement(v: Value, i: c_uint) -> Value;
    pub fn LLVMGetAsString(v: Value, len: *mut usize) -> *const c_char;
    pub fn LLVMIsConstantString(v: Value) -> c_int;
    pub fn LLVMGetConstOpcode(v: Value) -> c_int;
    pub fn LLVMGetInitializer(v: Value) -> Value;
    pub fn LLVMGlobalGetValueType(v: Value) -> Type;
    pub fn LLVMIsThreadLocal(v: Value) -> c_int;
    pub fn LLVMIsGlobalConstant(v: Value) -> c_int;
    pub fn LLVMAliasGetAliasee(v: Value) -> Value;
    pub fn LLVMPrintValueToString(v: Value) -> *mut c_char;
    pub fn LLVMPrintTypeToString(v: Type) -> *mut c_char;
    pub fn LLVMGetICmpPredicate(v: Value) -> c_int;
    pub fn LLVMGetFCmpPredicate(v: Value) -> c_int;
    pub fn LLVMGetAllocatedType(v: Value) -> Type;
    pub fn LLVMGetGEPSourceElementType(v: Value) -> Type;
    pub fn LLVMGetNumSuccessors(v: Value) -> c_uint;
    pub fn LLVMGetSuccessor(v: Value, i: c_uint) -> Block;
    pub fn LLVMGetCondition(v: Value) -> Value;
    pub fn LLVMIsConditional(v: Value) -> c_int;
    pub fn LLVMCountIncoming(v: Value) -> c_uint;
    pub fn LLVMGetIncomingValue(v: Value, i: c_uint) -> Value;
    pub fn LLVMGetIncomingBlock(v: Value, i: c_uint) -> Block;
    pub fn LLVMGetNumIndices(v: Value) -> c_uint;
    pub fn LLVMGetIndices(v: Value) -> *const c_uint;
    pub fn LLVMGetNumMaskElements(v: Value) -> c_uint;
    pub fn LLVMGetMaskValue(v: Value, i: c_uint) -> c_int;
    pub fn LLVMGetAtomicRMWBinOp(v: Value) -> c_int;
    pub fn LLVMGetCalledValue(v: Value) -> Value;
    pub fn LLVMGetNumArgOperands(v: Value) -> c_uint;
    pub fn LLVMGetInsertBlock(v: Value) -> Block;
    pub fn LLVMGetInstructionParent(v: Value) -> Block;
    pub fn LLVMGetSwitchCaseValue(v: Value, i: c_uint) -> Value;
    pub fn LLVMValueAsBasicBlock(v: Value) -> Block;
}
