#!/usr/bin/env python3
"""Writes /verif/known_findings.json (recorded by hand here, never at run time)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = []
def known(id, prop, world, replay, kinds, what, variants=None):
    d = dict(property=prop, status="known", id=id, world=world, replay="findings/" + replay, kinds=kinds, what=what)
    if variants: d["variants"] = variants
    K.append(d)
def fixed(commit, props, what):
    for p in props.split():
        K.append(dict(property=p, status="fixed", commit=commit, what=what, line="fixed: property=%s %s %s" % (p, commit, what)))
known("shared-data-heap", "C10", "string", "C10-shared-data.trace", ["C10:value"],
      "a write through the pointer of the non-const data() of a string whose large buffer is shared changes its copies (the test suite asserts that data() does not unshare)")
known("stale-reference-heap", "C10", "string", "C10-stale-reference.trace", ["C10:stale-reference"],
      "a write through a reference obtained before a large string was copied changes the copy (copy on write without an unshareable state)")
known("shared-data-arena", "C13", "astring", "C13-shared-data.trace", ["C13:value"],
      "a write through the pointer of the non-const data() of an arena string whose large buffer is shared changes its copies (the test suite asserts that data() does not unshare)")
known("stale-reference-arena", "C13", "astring", "C13-stale-reference.trace", ["C13:stale-reference"],
      "a write through a reference obtained before a large arena string was copied changes the copy (copy on write without an unshareable state)")
fixed("86a44ef", "C02 C04", "Reset and SpaceRemains dereferenced a null block on an arena that never allocated")
fixed("c01eb8c", "C01 C02", "a block sized without the padding an over-aligned request needs; the request overran the block or failed")
fixed("ffd12b6", "C02", "requests near SIZE_MAX wrapped around and returned memory smaller than requested")
fixed("b0a0338", "C01", "Create and CreateArray ignored alignof(T) above 8")
fixed("fec6278", "C02 C03", "Create leaked the object (no cleanup) when the cleanup node could not be allocated")
fixed("53c87c1", "C03 C05 C06", "a moved arena kept a memory_resource that pointed to the old arena, and ran hooks with a stolen cookie")
fixed("cd9acdd", "C06 C13", "the memory_resource returned nullptr instead of throwing bad_alloc")
fixed("9b82efe", "C02 C06", "Create let bad_alloc escape from noexcept when the constructor ran out of memory")
fixed("47a7e8a", "C03", "cleanups ran after some blocks were already freed: destructors touched freed memory")
fixed("1272cfd", "C07", "rendering of the metrics divided by zero when nothing had been counted")
fixed("8997404", "C08", "data race on the global table of arena locations")
fixed("8766679", "C11", "checkedRealloc freed the buffer a string still used when realloc failed")
fixed("9417428", "C11 C13", "string functions that allocate were noexcept: out of memory terminated the process")
fixed("f9bd041", "C11 C13", "growing a string beyond size_t wrapped the size instead of throwing length_error")
fixed("177218b", "C10", "contains(string_view) ignored the length of the view")
fixed("086399d", "C11 C13", "assign emptied the string before the allocation that failed")
fixed("61c0b6d", "C11 C13", "replace lost the content when the allocation failed")
fixed("a57e052", "C10 C13", "inserting a part of a string into itself read freed memory")
fixed("325cdeb", "C13", "swap, aliased replace and assignment of a char mixed content and allocators of different arenas")
fixed("9b72558", "C10 C12", "getline on a failed or a throwing stream left an inconsistent string")
fixed("c2ba08f", "C12", "operator>> did not reset width() and ignored a throwing stream buffer")
fixed("fef9342", "C13", "operator+=(string_view) on an arena string threw logic_error or used the wrong allocator")
fixed("abb0f12", "C15", "growth freed the old buffer or overwrote the members before the allocation that failed")
fixed("e456360", "C14 C15", "sizes that overflow in bytes wrapped around; get_writebuffer reserved room for n elements in all instead of n more")
fixed("b732206", "C14", "the first element of more than 128KB was written to a buffer with room for none")
fixed("8baaa40", "C14", "assign, insert and construction from deque, reverse or other iterators copied bytes from the wrong addresses")
fixed("b86d2e5", "C14 C17", "elements marked Relocatable were copied byte by byte, so that two elements owned one resource")
fixed("beef957", "C17", "elements that were moved away from were never destroyed when the vector grew")
fixed("c16983a", "C14", "assign of an empty range kept the old elements, insert of zero elements wrote one element too many")
fixed("febe51b", "C14", "assign, insert, resize and emplace with an argument inside the vector read it after it had been moved or freed")
fixed("005dcf2", "C16", "a throwing constructor left unconstructed elements inside the vector or leaked the constructed ones")
fixed("92123b6", "C16", "a throwing constructor during insert or emplace left a gap of unconstructed elements inside the vector")
fixed("674e38d", "C14", "overlapping moves went through __restrict__ pointers (undefined behaviour)")
fixed("94a35b0", "C07 C08", "a report that ran out of memory had added the counters already: repeating it counted them twice")
fixed("1bd977b", "C14", "filling a vector of a one-byte class type wrote the int it converts to instead of copying it")
fixed("68ea8a9", "C14", "resize and construction by size made null pointers to members non-null (zero bytes instead of value-initialisation)")
fixed("f3adf79", "C16", "an element or predicate that threw while elements were removed left destroyed elements inside the vector")
fixed("c7077e0", "C20", "a rejected or failed option declaration stayed in the parser: every later parse was refused as incomplete")
fixed("56e4a48", "C20", "an option value without a number was an indeterminate value")
fixed("b345f0b", "C20", "parsing erased the version that had been set")
fixed("c0fa0f0", "C20", "options of a copied or moved parser used the parser they were declared on after it was gone")
fixed("ff3d42f", "C20", "a parser with a prefix and a conflict handler did not know its long prefix and accepted any prefix")
fixed("843f99e", "C20", "format_help of a parser without options read past the end of an empty vector")
fixed("cd998ae", "C20", "a floating-point option value was silently zero when memory ran out while it was read")
fixed("d1fd302", "C12", "operator>> judged white space with the C locale's isspace on the int value: wide characters were cut (and read outside the table), the stream's locale was ignored")
fixed("bfbeaff", "C13", "assigning a view to a wide arena string went through a temporary without the arena's allocator")
fixed("90798b9", "C13", "arena strings of wide characters did not compile once they grew")
fixed("734a6cf", "C11 C13", "formatting a string with fmt terminated the process when memory ran out")
fixed("e8a1e0e", "C12", "operator<< narrowed the length to 32 bits: strings of more than 2^31 characters were not written")
fixed("7be4757", "C02", "bad_alloc from the constructor of an array element escaped from noexcept CreateArray and terminated the process")
fixed("f7fd74e", "C02", "a refused request called a null logger, or terminated the process when there was no memory for the log message")
fixed("28838d6", "C06", "an arena made while the heap was exhausted had no memory resource for ever: using it dereferenced null")
fixed("97fa03d", "C10 C13", "assign, append, insert and replace with iterators into the string itself that are not pointers (its own reverse) read characters that had been overwritten, or freed memory")
fixed("3e39296", "C14 C15 C16 C17", "erase of a value that is an element of the vector itself: the element was destroyed or moved and the ones after it compared with what was left")
json.dump(K, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
