// The allocator the library under test is given through its public allocator
// hooks: it fills blocks with noise, guards their ends, knows every live
// block, and can make a chosen allocation fail.
#pragma once
#include <cstddef>
#include <cstdint>

namespace alloc {
void install();      // make it the library's allocator
void uninstall();    // give the library malloc and free back
void reset_case();   // forget everything, drop leftovers of the case before
void end_case();     // throws pbt::Fail on allocator misuse in this case
void check();        // the same, at any point of a case

// Memory obtained from the same allocator by the harness; never fails, and not
// counted as an allocation of the library.
void* take(size_t bytes);
void give(void* p);

uint64_t live();            // blocks not freed yet
uint64_t live_bytes();
uint64_t calls();           // allocations asked for since reset_case
uint64_t failed();          // allocations refused since reset_case
int64_t plain_net();        // plain malloc minus free inside LIB(), asan only
int64_t plain_calls();      // plain malloc inside LIB(), asan only
bool is_live(const void* p);
int64_t block_size(const void* p);   // -1 when unknown

void fill_seed(uint64_t s);      // contents of fresh blocks
void fail_at(int64_t k);         // refuse the k-th allocation from now (0 is the next); -1: none
void fail_from(int64_t k);       // refuse every allocation from the k-th on
void virtual_from(size_t bytes); // blocks this big are address space only
void sparse_from(size_t bytes);  // blocks this big are zeros until they are written
void limit(size_t bytes);        // refuse blocks bigger than this

void enter();
void leave();
}  // namespace alloc
