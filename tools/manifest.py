#!/usr/bin/env python3
"""Writes MANIFEST.json; CLAIMED lists the properties that have a check"""
import json
T={
'C01':('runtime monitor: round trips of generated documents (parsed, built, edited) compared item by item','Every document generated (random, exhaustive over element types, edited by random histories) is compared in full, through the public read API, with what serialising and parsing gives. Covers what was generated; trusts the generator model and the read accessors (C03 and C13 check those against the model).'),
'C02':('runtime monitor: independent strict XML parser over all serialiser output','All output of the serialiser is read by an independent XML parser (written for this, byte for byte strict) and compared with the in-memory tree. Covers the documents generated and all special characters in all positions.'),
'C03':('runtime monitor: differential comparison of parsed documents with an independent model of the input','Documents are written from a model and what the parser makes of them is compared with an independent interpretation of that model. Five known findings, listed in known-findings.txt, are probed on their own and kept out of the generator.'),
'C04':('runtime monitor: metamorphic comparison of XML spellings','Each document is written in many equivalent spellings (also byte-level styles of the header), loaded from memory and file, and compared in full.'),
'C05':('fuzzing of the real parser with crash, panic, stack and time watchdogs','Mutated, truncated, spliced and grammar-generated input in worker processes with memory, CPU and stack limits; whatever parses is traversed, queried, extracted and serialised.'),
'C06':('runtime monitor: systematic damage (every cut, every tag, every attribute) must be refused','Every prefix of generated documents and systematic damage of nine kinds must be refused with an error.'),
'C07':('runtime monitor: state invariant and independent model checked after every operation of random histories','Forest invariant and the order of all content compared with an independent model after each operation of random histories.'),
'C08':('runtime monitor: identifier index checked against a model after every operation','All identifiers mentioned so far, near misses and all references are looked up after each operation of random histories; bulk and duplicate cases.'),
'C09':('runtime monitor: iterator traces compared with an independent traversal','Traces of all iterators (item, parent, position, depth) from all elements compared with an independent walk of the tree as read item by item.'),
'C10':('runtime monitor: query results compared with brute-force evaluation','Random queries over all criteria (values present, absent, unknown), unions and shortcuts, compared with evaluation of the criteria on every element.'),
'C11':('runtime monitor: ancestor iterators compared with parent chains','Ancestors and common ancestors, under random selectors, for all elements of random trees and histories, compared with parent links.'),
'C12':('runtime monitor: span placement and links checked against a model after every operation','Placement, reuse of layers and links to spans compared with an independent model after each operation of random histories.'),
'C13':('runtime monitor: vocabularies checked against a model after every operation, and bulk vocabularies','Sets, classes, subsets and processors read back after each operation; keys agree with strings across the document; bulk vocabularies.'),
'C14':('runtime monitor: declarations checked against a model after every operation','All declarations, their keys, annotators and defaults compared with an independent model after each operation and after a round trip.'),
'C15':('runtime monitor: header content compared with a model, through API, XML and round trips','Random metadata, submetadata and provenance, given through the API and as XML, read back field by field and again after round trips.'),
'C16':('runtime monitor: text of all elements compared with a reference implementation','Text of all elements of random and systematic documents compared with an independent implementation of the rules.'),
'C17':('runtime monitor: text per class compared with class markers planted in the document','Text content of several classes and sets with markers that identify the class: what is returned for a class consists of its markers exactly.'),
'C18':('runtime monitor: exhaustive over all pairs of element types','All pairs of parent and child type, by annotate and check_element_addable, compared with an independent copy of the acceptance table; placement checked.'),
'C19':('runtime monitor: attribution checked against a model after every operation','Processor and annotator of all elements compared with an independent model after each operation, including switches of the active processor and round trips.'),
'C20':('fault injection: operations that must fail, with full snapshots before and after','Snapshots of the whole document around operations that fail (many causes, at many depths), and equality of what later operations do on a document that did not see them.'),
'C21':('runtime monitor: features checked against the tree and a model after every operation','Features of all annotations asked by all subsets after each operation, compared with the tree and an independent model, and after round trips.'),
'C22':('runtime monitor: systematic and random typed values against independent recognisers','Boundary, systematic and random values for all typed attributes compared with independent recognisers of the format.'),
'C23':('stress under a small stack with operation counts','Very large, wide and deep documents processed in threads with a small stack; counts and content of results checked.'),
'C24':('runtime monitor: real binary run on batches of good and broken files','The real tool, built from the working tree, on batches of valid, broken, missing and unreadable files; stdout, stderr and exit status checked against each file alone.'),
'C25':('AddressSanitizer, Miri and valgrind on the real code','The workloads of the other checks run under AddressSanitizer; a smaller one under Miri; the measuring tool under valgrind.'),
'C26':('runtime monitor: results compared between documents alone, interleaved and in parallel threads','The same histories run alone, interleaved with others and in parallel threads with random delays give the same snapshots; read operations leave snapshots unchanged.'),
'C27':('runtime monitor: all accessors compared with each other after every operation','All ways to reach and to ask an object are compared with each other after each operation of random histories and on random documents; elements not yet added are compared with what was given. Agreement only: that the answers are right is for the other checks.'),
'C28':('runtime monitor: builder calls compared with a record of what was asked after every call','Random sequences of building calls; all that can be seen of the thing that is built is compared with a record after every call, and documents and processors made from it as well. Comparisons and recursion limits are evaluated for all element types and groups.'),
'C29':('runtime monitor: registering calls compared with a model of all that is registered after every call','Random sequences of the calls that register declarations, classes, subsets, feature classes and processors, mixed with elements that use them; after every call all keys, names and defaults are compared with maps that only grow. Up to the last key there is.'),
}
CLAIMED=open('/verif/tools/claimed').read().split()
m={'version':1,'setup_cmd':'bash setup.sh','checks':[],'not_applicable':[],'notes':'All checks are run by /verif/check.sh, which builds the monitor (harness/) against the working tree of /repo. No hooks were needed in /repo.'}
for k,(t,n) in T.items():
    if k in CLAIMED: m['checks'].append({'property':k,'quick_cmd':'bash check.sh %s quick'%k,'thorough_cmd':'bash check.sh %s thorough'%k,'technique':t,'level':'exploration','level_note':n})
    else: m['not_applicable'].append({'property':k,'reason':'no check yet: being built'})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
