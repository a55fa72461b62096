// The C++ wrapper of the C API as plain functions on pointers to its objects.
#include <cstdio>
#include <memory>
#include <string>
#include "ipmb.h"


#include <atomic>
#include <cstring>
#include <new>

static std::atomic<long> live{0};

// Counts what the wrapper allocates
void* operator new(std::size_t n) {
    void* p = std::malloc(n ? n : 1);
    if (!p) std::abort();
    live.fetch_add(1);
    return p;
}
void operator delete(void* p) noexcept {
    if (p) live.fetch_sub(1);
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }

using namespace ipmb;

static int32_t code(Error e) { return -static_cast<int32_t>(e); }

extern "C" {

long cpp_live() { return live.load(); }

void cpp_version(uint8_t* major, uint8_t* minor, uint8_t* patch, char* pre, uintptr_t cap) {
    Version v;
    *major = v.major;
    *minor = v.minor;
    *patch = v.patch;
    std::snprintf(pre, cap, "%s", v.pre.c_str());
}

void* cpp_label(const char* const* names, uintptr_t n) {
    switch (n) {
        case 1: return new Label{std::string(names[0])};
        case 2: return new Label{std::string(names[0]), std::string(names[1])};
        default: {
            auto* l = new Label();
            for (uintptr_t i = 0; i < n; i++) l->append(names[i]);
            return l;
        }
    }
}
void cpp_label_drop(void* l) { delete static_cast<Label*>(l); }

void* cpp_op_bool(bool v) { return new LabelOp(v); }
void* cpp_op_leaf(const char* s, bool string) { return string ? new LabelOp(std::string(s)) : new LabelOp(s); }
void* cpp_op_not(void* a) {
    static_cast<LabelOp*>(a)->op_not();
    return a;
}
void* cpp_op_and(void* a, void* b) {
    auto* r = static_cast<LabelOp*>(b);
    static_cast<LabelOp*>(a)->op_and(std::move(*r));
    delete r;
    return a;
}
void* cpp_op_or(void* a, void* b) {
    auto* r = static_cast<LabelOp*>(b);
    static_cast<LabelOp*>(a)->op_or(std::move(*r));
    delete r;
    return a;
}
void cpp_op_drop(void* a) { delete static_cast<LabelOp*>(a); }

// consumes the operation
void* cpp_selector(void* op, int32_t mode, uint32_t ttl) {
    auto* o = static_cast<LabelOp*>(op);
    auto* s = new Selector(std::move(*o), static_cast<ipmb_ffi::SelectorMode>(mode), ttl);
    delete o;
    return s;
}
// exchanges the operation for another one, as its user may
void cpp_selector_swap(void* s, void* op, int32_t mode, uint32_t ttl) {
    auto* sel = static_cast<Selector*>(s);
    std::swap(sel->label_op, *static_cast<LabelOp*>(op));
    sel->mode = static_cast<ipmb_ffi::SelectorMode>(mode);
    sel->ttl = ttl;
}
void cpp_selector_drop(void* s) { delete static_cast<Selector*>(s); }

// consumes the label
void* cpp_options(const char* identifier, void* label, const char* token, bool affinity, bool assign) {
    auto* l = static_cast<Label*>(label);
    if (assign) {
        // its members are assigned later
        auto* o = new Options("nowhere", Label{"nobody"}, "", !affinity);
        o->as_ffi();
        o->identifier = identifier;
        std::swap(o->label, *l);
        o->token = token;
        o->controller_affinity = affinity;
        delete l;
        return o;
    }
    auto* o = new Options(identifier, std::move(*l), token, affinity);
    delete l;
    return o;
}
void cpp_options_drop(void* o) { delete static_cast<Options*>(o); }

int32_t cpp_join(void* options, uint32_t timeout, void** tx, void** rx) {
    auto r = ipmb::join(*static_cast<Options*>(options), timeout);
    if (std::get<2>(r) == Error::kSuccess) {
        if (tx) *tx = new Sender(std::move(std::get<0>(r)));
        if (rx) *rx = new Receiver(std::move(std::get<1>(r)));
    }
    return code(std::get<2>(r));
}
void cpp_sender_drop(void* s) { delete static_cast<Sender*>(s); }
void cpp_receiver_drop(void* r) { delete static_cast<Receiver*>(r); }

// consumes the message
int32_t cpp_send(void* s, void* m) {
    auto* msg = static_cast<Message*>(m);
    auto e = static_cast<Sender*>(s)->send(std::move(*msg));
    delete msg;
    return code(e);
}
int32_t cpp_recv(void* r, void** m, uint32_t timeout) {
    auto t = static_cast<Receiver*>(r)->recv(timeout);
    if (std::get<1>(t) == Error::kSuccess) *m = new Message(std::move(std::get<0>(t)));
    return code(std::get<1>(t));
}

void* cpp_message(void* selector, uint16_t format, const uint8_t* p, uint32_t n) {
    return new Message(*static_cast<Selector*>(selector), format, p, n);
}
void cpp_message_drop(void* m) { delete static_cast<Message*>(m); }
void cpp_message_bytes(void* m, uint16_t* format, const uint8_t** p, uint32_t* n) {
    auto t = static_cast<Message*>(m)->bytes_data();
    *format = std::get<0>(t);
    *p = std::get<1>(t);
    *n = std::get<2>(t);
}
void cpp_object_append(void* m, uint64_t o) { static_cast<Message*>(m)->object_append(o); }
uint64_t cpp_object_retrieve(void* m, uintptr_t i) {
    auto t = static_cast<Message*>(m)->object_retrieve(i);
    return std::get<1>(t) == Error::kSuccess ? std::get<0>(t) : 0;
}
uint64_t cpp_object_get(void* m, uintptr_t i) {
    auto t = static_cast<Message*>(m)->object_get(i);
    return std::get<1>(t) == Error::kSuccess ? std::get<0>(t) : 0;
}
// consumes the region
void cpp_region_append(void* m, void* r) {
    auto* reg = static_cast<MemoryRegion*>(r);
    static_cast<Message*>(m)->memory_region_append(std::move(*reg));
    delete reg;
}
void* cpp_region_retrieve(void* m, uintptr_t i) {
    auto t = static_cast<Message*>(m)->memory_region_retrieve(i);
    return std::get<1>(t) == Error::kSuccess ? new MemoryRegion(std::move(std::get<0>(t))) : nullptr;
}

int32_t cpp_region(uintptr_t size, void** out) {
    auto t = MemoryRegion::create(size);
    if (std::get<1>(t) == Error::kSuccess) *out = new MemoryRegion(std::move(std::get<0>(t)));
    return code(std::get<1>(t));
}
void cpp_region_drop(void* r) { delete static_cast<MemoryRegion*>(r); }
uint8_t* cpp_region_map(void* r, uintptr_t offset, intptr_t size, intptr_t* real) {
    auto t = static_cast<MemoryRegion*>(r)->map(offset, size);
    if (std::get<2>(t) != Error::kSuccess) return nullptr;
    if (real) *real = std::get<1>(t);
    return std::get<0>(t);
}
uint32_t cpp_region_count(void* r) { return std::get<0>(static_cast<MemoryRegion*>(r)->ref_count()); }
int32_t cpp_region_clone(void* r, void** out) {
    auto t = static_cast<MemoryRegion*>(r)->clone();
    if (std::get<1>(t) == Error::kSuccess) *out = new MemoryRegion(std::move(std::get<0>(t)));
    return code(std::get<1>(t));
}

void* cpp_registry() { return new MemoryRegistry(); }
void cpp_registry_drop(void* r) { delete static_cast<MemoryRegistry*>(r); }
int32_t cpp_registry_alloc(void* r, uintptr_t size, const char* tag, void* context, void (*free)(void*), void** out) {
    auto* reg = static_cast<MemoryRegistry*>(r);
    std::string s(tag ? tag : "");
    auto t = free ? reg->alloc_with_free(size, tag ? &s : nullptr, [=]() { free(context); }) : reg->alloc(size, tag ? &s : nullptr);
    if (std::get<1>(t) == Error::kSuccess) *out = new MemoryRegion(std::move(std::get<0>(t)));
    return code(std::get<1>(t));
}
void cpp_registry_maintain(void* r) { static_cast<MemoryRegistry*>(r)->maintain(); }
}
