// Roots for the real Status class.
#include "common/base/Base.h"
#include <cstdarg>
#include <memory>
#include <new>
#define private public
#include "common/base/Status.h"
#undef private
using namespace nebula;
#define X extern "C"
X uint64_t vc_st_size() { return sizeof(Status); }
X const char* vc_st_state(const Status* p) { return p->state_.get(); }
X void vc_st_ctor0(Status* p) { new (p) Status(); } X void vc_st_OK(Status* p) { new (p) Status(Status::OK()); }
X void vc_st_make(Status* p, uint16_t c, const char* m, size_t n) { new (p) Status(static_cast<Status::Code>(c), folly::StringPiece(m, n)); }
X void vc_st_copy(Status* p, const Status* r) { new (p) Status(*r); } X void vc_st_move(Status* p, Status* r) { new (p) Status(std::move(*r)); } X void vc_st_from(Status* p, const Status* r) { new (p) Status(Status::from(*r)); }
X Status* vc_st_ascopy(Status* p, const Status* r) { return &(*p = *r); } X Status* vc_st_asmove(Status* p, Status* r) { return &(*p = std::move(*r)); }
X void vc_st_dtor(Status* p) { p->~Status(); }
X bool vc_st_eq(const Status* p, const Status* q) { return *p == *q; } X bool vc_st_ne(const Status* p, const Status* q) { return *p != *q; }
X bool vc_st_ok(const Status* p) { return p->ok(); } X uint16_t vc_st_code(const Status* p) { return p->code(); }
X void vc_st_message(std::string* o, const Status* p) { new (o) std::string(p->message()); } X void vc_st_toString(std::string* o, const Status* p) { new (o) std::string(p->toString()); }
X uint16_t vc_st_k_Inserted() { return Status::kInserted; } X bool vc_st_is_Inserted(const Status* p) { return p->isInserted(); } X void vc_st_gen0_Inserted(Status* o) { new (o) Status(Status::Inserted()); } X void vc_st_gen_Inserted(Status* o, const char* m, size_t n) { new (o) Status(Status::Inserted(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_Error() { return Status::kError; } X bool vc_st_is_Error(const Status* p) { return p->isError(); } X void vc_st_gen0_Error(Status* o) { new (o) Status(Status::Error()); } X void vc_st_gen_Error(Status* o, const char* m, size_t n) { new (o) Status(Status::Error(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_NoSuchFile() { return Status::kNoSuchFile; } X bool vc_st_is_NoSuchFile(const Status* p) { return p->isNoSuchFile(); } X void vc_st_gen0_NoSuchFile(Status* o) { new (o) Status(Status::NoSuchFile()); } X void vc_st_gen_NoSuchFile(Status* o, const char* m, size_t n) { new (o) Status(Status::NoSuchFile(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_NotSupported() { return Status::kNotSupported; } X bool vc_st_is_NotSupported(const Status* p) { return p->isNotSupported(); } X void vc_st_gen0_NotSupported(Status* o) { new (o) Status(Status::NotSupported()); } X void vc_st_gen_NotSupported(Status* o, const char* m, size_t n) { new (o) Status(Status::NotSupported(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_SyntaxError() { return Status::kSyntaxError; } X bool vc_st_is_SyntaxError(const Status* p) { return p->isSyntaxError(); } X void vc_st_gen0_SyntaxError(Status* o) { new (o) Status(Status::SyntaxError()); } X void vc_st_gen_SyntaxError(Status* o, const char* m, size_t n) { new (o) Status(Status::SyntaxError(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_SemanticError() { return Status::kSemanticError; } X bool vc_st_is_SemanticError(const Status* p) { return p->isSemanticError(); } X void vc_st_gen0_SemanticError(Status* o) { new (o) Status(Status::SemanticError()); } X void vc_st_gen_SemanticError(Status* o, const char* m, size_t n) { new (o) Status(Status::SemanticError(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_StatementEmpty() { return Status::kStatementEmpty; } X bool vc_st_is_StatementEmpty(const Status* p) { return p->isStatementEmpty(); } X void vc_st_gen0_StatementEmpty(Status* o) { new (o) Status(Status::StatementEmpty()); } X void vc_st_gen_StatementEmpty(Status* o, const char* m, size_t n) { new (o) Status(Status::StatementEmpty(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_KeyNotFound() { return Status::kKeyNotFound; } X bool vc_st_is_KeyNotFound(const Status* p) { return p->isKeyNotFound(); } X void vc_st_gen0_KeyNotFound(Status* o) { new (o) Status(Status::KeyNotFound()); } X void vc_st_gen_KeyNotFound(Status* o, const char* m, size_t n) { new (o) Status(Status::KeyNotFound(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_PartialSuccess() { return Status::kPartialSuccess; } X bool vc_st_is_PartialSuccess(const Status* p) { return p->isPartialSuccess(); } X void vc_st_gen0_PartialSuccess(Status* o) { new (o) Status(Status::PartialSuccess()); } X void vc_st_gen_PartialSuccess(Status* o, const char* m, size_t n) { new (o) Status(Status::PartialSuccess(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_SpaceNotFound() { return Status::kSpaceNotFound; } X bool vc_st_is_SpaceNotFound(const Status* p) { return p->isSpaceNotFound(); } X void vc_st_gen0_SpaceNotFound(Status* o) { new (o) Status(Status::SpaceNotFound()); } X void vc_st_gen_SpaceNotFound(Status* o, const char* m, size_t n) { new (o) Status(Status::SpaceNotFound(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_HostNotFound() { return Status::kHostNotFound; } X bool vc_st_is_HostNotFound(const Status* p) { return p->isHostNotFound(); } X void vc_st_gen0_HostNotFound(Status* o) { new (o) Status(Status::HostNotFound()); } X void vc_st_gen_HostNotFound(Status* o, const char* m, size_t n) { new (o) Status(Status::HostNotFound(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_TagNotFound() { return Status::kTagNotFound; } X bool vc_st_is_TagNotFound(const Status* p) { return p->isTagNotFound(); } X void vc_st_gen0_TagNotFound(Status* o) { new (o) Status(Status::TagNotFound()); } X void vc_st_gen_TagNotFound(Status* o, const char* m, size_t n) { new (o) Status(Status::TagNotFound(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_EdgeNotFound() { return Status::kEdgeNotFound; } X bool vc_st_is_EdgeNotFound(const Status* p) { return p->isEdgeNotFound(); } X void vc_st_gen0_EdgeNotFound(Status* o) { new (o) Status(Status::EdgeNotFound()); } X void vc_st_gen_EdgeNotFound(Status* o, const char* m, size_t n) { new (o) Status(Status::EdgeNotFound(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_UserNotFound() { return Status::kUserNotFound; } X bool vc_st_is_UserNotFound(const Status* p) { return p->isUserNotFound(); } X void vc_st_gen0_UserNotFound(Status* o) { new (o) Status(Status::UserNotFound()); } X void vc_st_gen_UserNotFound(Status* o, const char* m, size_t n) { new (o) Status(Status::UserNotFound(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_IndexNotFound() { return Status::kIndexNotFound; } X bool vc_st_is_IndexNotFound(const Status* p) { return p->isIndexNotFound(); } X void vc_st_gen0_IndexNotFound(Status* o) { new (o) Status(Status::IndexNotFound()); } X void vc_st_gen_IndexNotFound(Status* o, const char* m, size_t n) { new (o) Status(Status::IndexNotFound(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_GroupNotFound() { return Status::kGroupNotFound; } X bool vc_st_is_GroupNotFound(const Status* p) { return p->isGroupNotFound(); } X void vc_st_gen0_GroupNotFound(Status* o) { new (o) Status(Status::GroupNotFound()); } X void vc_st_gen_GroupNotFound(Status* o, const char* m, size_t n) { new (o) Status(Status::GroupNotFound(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_ZoneNotFound() { return Status::kZoneNotFound; } X bool vc_st_is_ZoneNotFound(const Status* p) { return p->isZoneNotFound(); } X void vc_st_gen0_ZoneNotFound(Status* o) { new (o) Status(Status::ZoneNotFound()); } X void vc_st_gen_ZoneNotFound(Status* o, const char* m, size_t n) { new (o) Status(Status::ZoneNotFound(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_LeaderChanged() { return Status::kLeaderChanged; } X bool vc_st_is_LeaderChanged(const Status* p) { return p->isLeaderChanged(); } X void vc_st_gen0_LeaderChanged(Status* o) { new (o) Status(Status::LeaderChanged()); } X void vc_st_gen_LeaderChanged(Status* o, const char* m, size_t n) { new (o) Status(Status::LeaderChanged(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_Balanced() { return Status::kBalanced; } X bool vc_st_is_Balanced(const Status* p) { return p->isBalanced(); } X void vc_st_gen0_Balanced(Status* o) { new (o) Status(Status::Balanced()); } X void vc_st_gen_Balanced(Status* o, const char* m, size_t n) { new (o) Status(Status::Balanced(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_PartNotFound() { return Status::kPartNotFound; } X bool vc_st_is_PartNotFound(const Status* p) { return p->isPartNotFound(); } X void vc_st_gen0_PartNotFound(Status* o) { new (o) Status(Status::PartNotFound()); } X void vc_st_gen_PartNotFound(Status* o, const char* m, size_t n) { new (o) Status(Status::PartNotFound(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_ListenerNotFound() { return Status::kListenerNotFound; } X bool vc_st_is_ListenerNotFound(const Status* p) { return p->isListenerNotFound(); } X void vc_st_gen0_ListenerNotFound(Status* o) { new (o) Status(Status::ListenerNotFound()); } X void vc_st_gen_ListenerNotFound(Status* o, const char* m, size_t n) { new (o) Status(Status::ListenerNotFound(folly::StringPiece(m, n))); }
X uint16_t vc_st_k_PermissionError() { return Status::kPermissionError; } X bool vc_st_is_PermissionError(const Status* p) { return p->isPermissionError(); } X void vc_st_gen0_PermissionError(Status* o) { new (o) Status(Status::PermissionError()); } X void vc_st_gen_PermissionError(Status* o, const char* m, size_t n) { new (o) Status(Status::PermissionError(folly::StringPiece(m, n))); }
