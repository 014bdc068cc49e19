From 6c9c13ba9594f464042676b7e81eb62c51a5decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 01/44] fix: byte codec decodes bytes below 0x10

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index b118a4a..34a9757 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -583,7 +583,7 @@ class ByteScheme(EncoderScheme):
         return f'{code:x}'
 
     def compose_str(self, pieces: List[str]):
-        byte_arr = bytes.fromhex(''.join(pieces))
+        byte_arr = bytes(int(piece, 16) for piece in pieces)
         return str(byte_arr, encoding=self.encoding, errors=self.errors)
 
     def encode_str(self, line: str) -> List[str]:
-- 
2.43.0


From 1b4e44a555728e06b1676d3ba8e20101540de92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 02/44] fix: do not encode the line break of a line read from a
 file

---
 nlcodec/codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 34a9757..e65ecd4 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -681,6 +681,7 @@ def load_scheme(path: Union[str, Path, TextIO]) -> EncoderScheme:
 def encode(inp: Iterator[str], scheme: EncoderScheme, indices=False) \
         -> Iterator[Union[List[str], List[int]]]:
     for line in inp:
+        line = line.rstrip('\n')
         if indices:
             yield scheme.encode(line)
         else:
-- 
2.43.0


From ac8508e402ba792d254dd9035601b5e0227e9825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 03/44] fix: stop BPE training when there is no pair left to
 merge

---
 nlcodec/bpe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index cfb71ba..c1b4153 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -131,7 +131,7 @@ class BPELearn:
         log.info(f"logs every {log_every} seconds")
         for i in range(n_merges):
             # Using MaxHeap for faster lookup of max. But heap gets a bit dirty, so a bit of cleanup
-            max_pair, pair_freq = heap.pop()
+            max_pair, pair_freq = heap.pop() if len(heap) else (None, 0)
             while max_pair in heap_dirty:  # clean all max [airs until a clean value
                 freq_update = heap_dirty.pop(max_pair)
                 assert freq_update < 0  # only decrements are valid. increments make this wrong
@@ -139,7 +139,10 @@ class BPELearn:
                 assert corr_freq >= 0, f'{max_pair}:{pair_freq}, Δ={freq_update} = {corr_freq}'
                 if corr_freq > 0:  # exclude zero count
                     heap.push(max_pair, corr_freq)
-                max_pair, pair_freq = heap.pop()
+                max_pair, pair_freq = heap.pop() if len(heap) else (None, 0)
+            if max_pair is None:
+                log.warning("Early stop; no more pairs to merge")
+                break
 
             # here the  actual loop begins
             if pair_freq < min_co_evidence:
-- 
2.43.0


From 91aaab4965aa939379e4b982646bd74ed8688bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 04/44] fix: merge occurrences of a pair in order of text, not
 of memory address

---
 nlcodec/bpe.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index c1b4153..4ee682d 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -6,7 +6,7 @@
 import collections as coll
 import copy
 import time
-from typing import List, Dict, Tuple, Union, Iterator, Set
+from typing import List, Dict, Tuple, Union, Iterator
 
 from nlcodec import log, DEF_MIN_CO_EV
 from nlcodec.codec import Type, Level, Reseved
@@ -39,7 +39,8 @@ class BPELearn:
         self.bi: Dict[Bigram, int] = coll.defaultdict(int)  # bigram frequencies
 
         # Bigram to sequence references
-        self.bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        # a dict per bigram, used as a set that remembers the left to right order of insertion
+        self.bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)
 
         self.create_index(seqs)
         self.validate_index()
@@ -68,7 +69,7 @@ class BPELearn:
                     bigm = (seq[i], seq[i + 1])
                     self.bi[bigm] += freq
                     assert nodes[i] not in self.bi_ixs[bigm]
-                    self.bi_ixs[bigm].add(nodes[i])  # bigm found at node i
+                    self.bi_ixs[bigm][nodes[i]] = None  # bigm found at node i
                     self.uni[seq[i]] += freq
                 self.uni[seq[-1]] += freq  # the last unigram count; not covered in the above loop
                 bar_msg = f'MaxRSS={max_RSS()[1]}'
@@ -203,21 +204,21 @@ class BPELearn:
                     heap_deltas[(x_node.val, a)] -= x_node.freq
                     if bi_ixs.get((x_node.val, a)):
                         # not sure why 'if' needed here;
-                        bi_ixs[(x_node.val, a)].remove(x_node)
+                        bi_ixs[(x_node.val, a)].pop(x_node)
 
                     # add (x_node_val, R) to bi and bi_ixs
                     heap_deltas[(x_node.val, new_type_idx)] += x_node.freq
-                    bi_ixs[(x_node.val, new_type_idx)].add(x_node)
+                    bi_ixs[(x_node.val, new_type_idx)][x_node] = None
                 if y_node:
                     # remove (b, y_node.val) from bi and bi_ixs
                     heap_deltas[(b, y_node.val)] -= b_node.freq
                     if bi_ixs.get((b, y_node.val)):
                         # not sure why 'if' needed here;
-                        bi_ixs[(b, y_node.val)].remove(b_node)
+                        bi_ixs[(b, y_node.val)].pop(b_node)
 
                     # add (R, y_node.val) to bi and bi_ixs
                     heap_deltas[(new_type_idx, y_node.val)] += b_node.freq
-                    bi_ixs[(new_type_idx, y_node.val)].add(new_node)
+                    bi_ixs[(new_type_idx, y_node.val)][new_node] = None
 
             # however; the counts shouldn't go negative
             assert uni[a] >= 0
-- 
2.43.0


From 3a8cf07a0d3ec9690b7f687a5d9dbaa29fb9cec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 05/44] fix: track merges in order of text, not of memory
 address

---
 nlcodec/eval/bpe_len.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index 89dca0d..b4d6d48 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -7,7 +7,7 @@ import argparse
 import collections as coll
 import sys
 from pathlib import Path
-from typing import Iterator, Dict, Set, Optional, Union
+from typing import Iterator, Dict, Optional, Union
 
 import numpy as np
 from tqdm import tqdm
@@ -71,8 +71,8 @@ class BpeTracker:
         self.bpe = bpe
         self.uni: NDArray = np.zeros(bpe.total_types(), dtype=np.long) # term freq ; unigrams
 
-        # Bigram to sequence references
-        self.bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        # Bigram to sequence references; dict as a set that remembers the left to right order
+        self.bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)
         self.seq_lens: Optional[NDArray] = None
         self.create_index(data)
 
@@ -99,7 +99,7 @@ class BpeTracker:
         log.info("Encoding and creating index")
         enc_data  = self.bpe.encode_parallel(data)
         uni: Dict[int, int] = coll.defaultdict(int)
-        bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)
         seq_lens = []
         with tqdm(enumerate(enc_data)) as data_bar:
             for idx, seq in data_bar:
@@ -108,7 +108,7 @@ class BpeTracker:
                 for node in seq:
                     uni[node.val] += 1
                 for node in seq[:-1]:
-                    bi_ixs[(node.val, node.right.val)].add(node)
+                    bi_ixs[(node.val, node.right.val)][node] = None
                 bar_msg = f'MaxRSS={max_RSS()[1]}'
                 data_bar.set_postfix_str(bar_msg, refresh=False)
 
@@ -181,12 +181,12 @@ class BpeTracker:
 
                     if u.left:
                         if  bi_ixs.get((u.left.val, a)):
-                            bi_ixs[(u.left.val, a)].remove(u.left)
-                        bi_ixs[(u.left.val, u.val)].add(u.left)
+                            bi_ixs[(u.left.val, a)].pop(u.left)
+                        bi_ixs[(u.left.val, u.val)][u.left] = None
                     if u.right:
                         if bi_ixs.get((b, u.right.val)):
-                            bi_ixs[(b, u.right.val)].remove(b_node)
-                        bi_ixs[(u.val, u.right.val)].add(u)
+                            bi_ixs[(b, u.right.val)].pop(b_node)
+                        bi_ixs[(u.val, u.right.val)][u] = None
         k = len(self.bpe)
         emd = self.earth_mov_dist(self.uni[:k])
         mu_len = self.mean_seq_len()
-- 
2.43.0


From 040c66a78e614198b86421a4c0cc072c6f5b603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 06/44] fix: restore the unigram count of repeated tokens not
 merged

---
 nlcodec/eval/bpe_len.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index b4d6d48..27a8f26 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -168,7 +168,7 @@ class BpeTracker:
                         # happens due to repeats like X A A A A Y
                         uni[new_type.idx] -= u.freq
                         uni[a] += u.freq
-                        uni[b] -= u.freq
+                        uni[b] += u.freq
                         continue
                     assert u.val == a
                     assert b_node.val == b, f'expected {a, b} found {u.val, b_node.val} at {b_node}'
-- 
2.43.0


From 472cd587340a0f441d0eb71dce5ff2a1dd884722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 07/44] fix: save the scheme along with shrunk vocabulary

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index e65ecd4..793b015 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -342,7 +342,7 @@ class EncoderScheme(abc.ABC):
             new_t = old_t.copy(idx=new_idx, kids=new_kids)
             new_table.append(new_t)
         if save_at:
-            Type.write_out(new_table, out=save_at)
+            Type.write_out(new_table, out=save_at, scheme=self.name)
         return mapping
 
     def save(self, out):
-- 
2.43.0


From 6d8a6f1d943988785a275471214e2080e48ac39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 08/44] fix: parsed types compare equal to the ones that were
 saved

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 793b015..223c634 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -96,7 +96,7 @@ class Type:  # Type as in word type vs token
             kids = list(map(int, cols[4].split()))
             # kids shouldn't be referenced forward in index
             assert all(k < idx and k < len(vocab) for k in kids)
-            kids = [vocab[k] for k in kids]
+            kids = tuple(vocab[k] for k in kids)
         return Type(name, level=level, idx=idx, freq=freq, kids=kids)
 
     def copy(self, **kwargs):
-- 
2.43.0


From ffbd9322a39b7181d0ede5f0dcd86ab6dded56f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 09/44] fix: read and write vocabulary on handles without a
 name

---
 nlcodec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 223c634..ef1bded 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -126,7 +126,7 @@ class Type:  # Type as in word type vs token
             wrtr.write(item.format() + '\n')
         if wrtr is not out:
             wrtr.close()
-        log.info(f"Wrote {len(table)} to {wrtr.name}")
+        log.info(f"Wrote {len(table)} to {getattr(wrtr, 'name', wrtr)}")
 
     @classmethod
     def read_vocab(cls, inp: Union[Path, str, TextIO]) -> Tuple[List['Type'], Optional[Dict]]:
@@ -150,7 +150,7 @@ class Type:  # Type as in word type vs token
             vocab[i] = v
         if rdr is not inp:
             rdr.close()
-        log.info(f"read {len(vocab)} types from {rdr.name}")
+        log.info(f"read {len(vocab)} types from {getattr(rdr, 'name', rdr)}")
         return vocab, meta
 
     def get_permutations(self, name=False) -> List[List[int]]:
-- 
2.43.0


From 9658dae270881029ad8870f17f1b0e7855f2570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 10/44] fix: keep no terms when vocab_size has no room beyond
 reserved types

---
 nlcodec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index ef1bded..74a4467 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -266,8 +266,8 @@ class EncoderScheme(abc.ABC):
 
         if vocab_size > 0 and len(vocab) + len(term_freqs) > vocab_size:
             log.info(f"Truncating vocab at size={vocab_size}")
-            unk_count += sum(f for t, f in term_freqs[vocab_size - len(vocab):])
-            term_freqs = term_freqs[:vocab_size - len(vocab)]
+            unk_count += sum(f for t, f in term_freqs[max(0, vocab_size - len(vocab)):])
+            term_freqs = term_freqs[:max(0, vocab_size - len(vocab))]
 
         # update reserved types with corpus freqs
         for idx, t in enumerate(vocab):
-- 
2.43.0


From 23da48db8aafe131aa7663f845fd41d329fe3a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 11/44] fix: store a sequence field in the smallest integer
 type of the whole field

---
 nlcodec/db/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index de71a5d..8831d46 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -88,9 +88,12 @@ class SeqField:
 
         def shrink(self):
             if self.buffer:
-                dtype = best_dtype(mn=min(self.buffer), mx=max(self.buffer))
+                mn, mx = int(min(self.buffer)), int(max(self.buffer))
+                if len(self.frozen):
+                    mn, mx = min(mn, int(self.frozen.min())), max(mx, int(self.frozen.max()))
+                dtype = best_dtype(mn=mn, mx=mx)
                 data = np.array(self.buffer, dtype=dtype)
-                self.frozen = np.concatenate((self.frozen, data))
+                self.frozen = np.concatenate((self.frozen.astype(dtype), data))
                 self.buffer = []
 
         def build(self):
-- 
2.43.0


From cf5fcfa0fb7e0d989d73132b8d3abf18736e2af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 12/44] fix: iterate shuffled over ids, which are kept in a set

---
 nlcodec/db/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 8831d46..f7f646c 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -14,7 +14,6 @@ import shutil
 from collections import namedtuple, defaultdict
 from pathlib import Path
 from typing import List, Iterator, Dict, Any, Tuple
-import copy
 import random
 import numpy as np
 
@@ -223,7 +222,7 @@ class Db:
     def __iter__(self):
         ids = self.ids
         if self.shuffle:
-            ids = copy.copy(ids)
+            ids = list(ids)
             random.shuffle(ids)
         for _id in ids:
             yield self[_id]
-- 
2.43.0


From cbd53db2de9271e437ff6d0544bd535dace1c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 13/44] fix: keep batches within max_sents

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index f7f646c..8cf1482 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -250,7 +250,7 @@ class Db:
                 log.warning(f"Skipping record {_id}, either source or target is empty")
                 continue
 
-            if (len(batch) + 1) * max(max_len, _len) > max_toks or len(batch) > max_sents:
+            if (len(batch) + 1) * max(max_len, _len) > max_toks or len(batch) >= max_sents:
                 if _len > max_toks:
                     raise Exception(f'Unable to make a batch of {max_toks} toks'
                                     f' with a seq of len:{_len}')
-- 
2.43.0


From a83da354dd5d85df6c421ea56bf8ee9b10091617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 14/44] fix: records that can not be batched do not end the
 epoch

---
 nlcodec/db/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 8cf1482..2d4395d 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -239,6 +239,8 @@ class Db:
                 rows.append((_id, max(lens)))
         if len(skip_counter) > 0:
             log.warning(f"Skipped :: {skip_counter}")
+        if not rows:
+            return []
         rows = np.array(rows)  # id, len
         np.random.shuffle(rows)  # in-place, along the first axis; for extra rand within len group
         rows = rows[rows[:, 1].argsort()]  # sort by second col wiz len
@@ -264,10 +266,10 @@ class Db:
             batches.append(np.array(batch))
         return batches
 
-    def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf')):
+    def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf'), allow_empty=False):
 
         batches = self._make_eq_len_batch_ids(max_toks=max_toks, max_sents=max_sents)
-        if not batches:
+        if not batches and not allow_empty:
             raise Exception(f'Found no data. Please check config data paths')
         log.info(f"length sorted random batches = {len(batches)}. Shuffling🔀...")
         # every pass introduce some randomness
@@ -357,10 +359,16 @@ class MultipartDb:
         buff = list(zip(self.part_paths, self.mem))
         random.shuffle(buff)
 
+        found_data = False
         for path, part in buff:
             if part is None:
                 part = Db.load(path, rec_type=self.rec_type)
-            yield from part.make_eq_len_ran_batches(max_toks=max_toks, max_sents=max_sents)
+            for batch in part.make_eq_len_ran_batches(max_toks=max_toks, max_sents=max_sents,
+                                                      allow_empty=True):
+                found_data = True
+                yield batch
+        if not found_data:
+            raise Exception(f'Found no data. Please check config data paths')
 
     class Writer:
 
-- 
2.43.0


From 3176724b1742def7d19840779af4df3b96bfddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 15/44] fix: skip parts without records when writing a
 multipart db

---
 nlcodec/db/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 2d4395d..c050547 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -388,10 +388,19 @@ class MultipartDb:
 
         def __call__(self, part_num: int, recs):
             # assume recs have ids created externally
-            part = Db.create(recs, field_names=self.field_names, has_id=True)
             part_path = self.path / f'part-{part_num:0{self.part_path_pad}d}'
-            part.save(part_path)
             meta_path = part_path.with_suffix('.meta')
+            recs = iter(recs)
+            first = list(itertools.islice(recs, 1))
+            if not first:   # such as an empty partition of a distributed job
+                log.warning(f"No records in {part_path}; skipping it")
+                for stale in (meta_path, part_path):  # of an earlier attempt
+                    if stale.exists():
+                        stale.unlink()
+                return part_path, 0
+            part = Db.create(itertools.chain(first, recs), field_names=self.field_names,
+                             has_id=True)
+            part.save(part_path)
             meta = dict(count=len(part), size=part_path.stat().st_size)
             meta = json.dumps(meta, ensure_ascii=False, indent=2)
             meta_path.write_text(meta)
-- 
2.43.0


From 896b66cc1f199321d33488c87d2141eab43e7362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 16/44] fix: remove the success flag before anything else when
 overwriting a multipart db

---
 nlcodec/db/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index c050547..3148906 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -319,7 +319,7 @@ class MultipartDb:
         rec_counts = []
         for part_name, stats in meta['parts'].items():
             part_file = path / part_name
-            part_file.exists()
+            assert part_file.exists(), f'{part_file} is missing'
             part_files.append(part_file)
             rec_counts.append(stats['count'])
         field_names = meta['field_names']
@@ -379,6 +379,9 @@ class MultipartDb:
             if path.exists() and len(os.listdir(path)) > 0:
                 if overwrite:
                     log.warning(f"Removing existing data at {path}")
+                    flag_file = path / '_SUCCESS'
+                    if flag_file.exists():
+                        flag_file.unlink()  # first, an interrupted removal is not a success
                     shutil.rmtree(path)
                 else:
                     raise Exception(f'{path} already exists. not overwriting it')
-- 
2.43.0


From d9a72e1337de10530c00599a80657b3915df7785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 17/44] fix: do not drop sentences of exactly the maximum
 length

---
 nlcodec/spark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/spark.py b/nlcodec/spark.py
index 1f7cb03..6834ac4 100644
--- a/nlcodec/spark.py
+++ b/nlcodec/spark.py
@@ -107,7 +107,7 @@ def read_raw_bitext_tok(spark, src_path: Union[str, Path], tgt_path: Union[str,
     if truncate:
         tok_rdd = tok_rdd.map(lambda r: (r[0], r[1][:src_len], r[2][:tgt_len]))
     else:
-        tok_rdd = tok_rdd.filter(lambda r: len(r[1]) < src_len and len(r[2]) < tgt_len)
+        tok_rdd = tok_rdd.filter(lambda r: len(r[1]) <= src_len and len(r[2]) <= tgt_len)
 
     # dataframes doesnt support numpy arrays, so we cast them to python list
     a_row = tok_rdd.take(1)[0]
-- 
2.43.0


From be9b82edcb7d22579110f876fdec20e338538eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 18/44] fix: nlcodec-learn reuses existing stats file

---
 nlcodec/learn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/learn.py b/nlcodec/learn.py
index ccf4457..9907896 100644
--- a/nlcodec/learn.py
+++ b/nlcodec/learn.py
@@ -72,10 +72,10 @@ def main():
         master = args.pop('spark_master')
         driver_mem = args.pop('driver_mem')
         dedup = args.pop('dedup')
+        inp = args.pop('inp')
         if stats_file.exists():
             log.warning(f"{stats_file} exists, reusing it. please delete it if this is wrong.")
         else:
-            inp = args.pop('inp')
             with spark.session(master=master, driver_mem=driver_mem) as session:
                 words, chars, line_count = word_counts(paths=inp, dedup=dedup, spark=session)
             with utils.IO.writer(words_file) as out:
-- 
2.43.0


From 58b5e056bc78f4238528f5a22fe38a3419b65d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 19/44] fix: IO opens gzip files like plain ones

---
 nlcodec/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index b85072a..5b9aaf6 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -90,7 +90,12 @@ class IO:
     def __enter__(self):
 
         if self.path.name.endswith(".gz"):  # gzip mode
-            self.fd = gzip.open(self.path, self.mode, encoding=self.encoding, errors=self.errors)
+            if 'b' in self.mode:  # binary mode doesnt take encoding or errors
+                self.fd = gzip.open(self.path, self.mode)
+            else:  # text is the default of open(), but not of gzip.open()
+                mode = self.mode if 't' in self.mode else self.mode + 't'
+                self.fd = gzip.open(self.path, mode, encoding=self.encoding, errors=self.errors,
+                                    newline='\n')
         else:
             if 'b' in self.mode:  # binary mode doesnt take encoding or errors
                 self.fd = self.path.open(self.mode)
-- 
2.43.0


From fc3db377502729b3b8fb38dbf05e619b22e25413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 20/44] fix: np.float is removed from numpy

---
 nlcodec/qestim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index b01a057..171fc92 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -38,7 +38,7 @@ class QualityEstimator:
 
     @staticmethod
     def validate_distribution(distr):
-        assert distr.dtype == np.float
+        assert distr.dtype == float
         assert abs(np.sum(distr) - 1.0) < 1e-4  # sum to 1
         assert np.sum(distr < 0) == 0  # no negatives
 
-- 
2.43.0


From b32a2c982fb8a4f4f0b3a5c04024f116667c040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 21/44] fix: quality estimation for codecs without unk type

---
 nlcodec/qestim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index 171fc92..a666f54 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -99,7 +99,8 @@ class QualityEstimator:
         mean_len = n_toks / n_seqs
         n_types = self.codec.vocab_size
 
-        unk_count = stats[self.codec.unk_idx]
+        unk_idx = getattr(self.codec, 'unk_idx', -1)   # class and byte schemes have no unk
+        unk_count = stats[unk_idx] if unk_idx >= 0 else 0
 
         # exclude the reserved types which dont surface in prediction
         #excludes = [typ for typ in self.codec.table if typ.is_reserved and stats[typ.idx] == 0]
-- 
2.43.0


From c3ce65e465ef803e439c81663a4eabd6016423b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 22/44] fix: make use of n for n-gram recall

---
 nlcodec/eval/pr_measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/eval/pr_measure.py b/nlcodec/eval/pr_measure.py
index 232a3d2..a1377ac 100644
--- a/nlcodec/eval/pr_measure.py
+++ b/nlcodec/eval/pr_measure.py
@@ -58,7 +58,7 @@ def main(model_path, cands, refs, n, out, freqs=None):
 
     cands = list(codec.encode_parallel(cands))
     refs = list(codec.encode_parallel(refs))
-    gram_recalls, ref_gram_freqs, gram_precisions, cand_gram_freqs = count_gram_recall(cands, refs)
+    gram_recalls, ref_gram_freqs, gram_precisions, cand_gram_freqs = count_gram_recall(cands, refs, n=n)
     if freqs:
         log.info(f"Loading precomputed gram freqs from {freqs}")
         freqs = [json.loads(l.strip()) for l in freqs]
-- 
2.43.0


From dd7ff4583d964411243a20f4a8b6a64ce68b0be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:54 +0000
Subject: [PATCH 23/44] fix: shrink vocabulary on files in which no token is
 found

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 74a4467..c07042f 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -308,7 +308,7 @@ class EncoderScheme(abc.ABC):
             with IO.reader(file) as lines:
                 for line in tqdm(lines):
                     freqs.update(self.encode(line))
-        assert len(self.table) > max(freqs.keys())
+        assert len(self.table) > max(freqs.keys(), default=-1)
         removals = [False] * len(self.table)
         for idx, typ in enumerate(self.table):
             if typ.level == Level.reserved:
-- 
2.43.0


From 2f2fdbbbcf3889db33e96fab1e45fc2ad56d9948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:54 +0000
Subject: [PATCH 24/44] fix: prefix trie works with pieces longer than the
 recursion limit

---
 nlcodec/dstruct.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/nlcodec/dstruct.py b/nlcodec/dstruct.py
index 459cab4..77f43a8 100644
--- a/nlcodec/dstruct.py
+++ b/nlcodec/dstruct.py
@@ -90,11 +90,20 @@ class TrNode(Generic[T, D]):  # Trie Node or Tree Node
         self.kids = dict() if kids is None else kids
 
     def get_node(self, idxs, create_missing: bool = True) -> 'TrNode[T, D]':
-        if not idxs:
-            return self
-        if create_missing and idxs[0] not in self.kids:  # make one
-            self.kids[idxs[0]] = TrNode(idx=idxs[0], parent=self)
-        return self.kids[idxs[0]].get_node(idxs=idxs[1:], create_missing=create_missing)
+        node = self
+        for idx in idxs:
+            if create_missing and idx not in node.kids:  # make one
+                node.kids[idx] = TrNode(idx=idx, parent=node)
+            node = node.kids[idx]
+        return node
+
+    def _nodes(self):
+        """all the nodes in the tree at this node: self and all the (grand) kids"""
+        stack = [self]
+        while stack:
+            node = stack.pop()
+            yield node
+            stack.extend(node.kids.values())
 
     @property
     def n_kids(self):
@@ -108,11 +117,11 @@ class TrNode(Generic[T, D]):  # Trie Node or Tree Node
     @property
     def size(self):
         """Number of nodes in the tree at this node. Counts self and all the kids"""
-        return 1 + sum(k.size for k in self.kids.values())
+        return sum(1 for _ in self._nodes())
 
     @property
     def data_node_count(self):
-        return (1 if self.has_data else 0) + sum(k.data_node_count for k in self.kids.values())
+        return sum(1 for node in self._nodes() if node.has_data)
 
 
 class MaxHeap:
-- 
2.43.0


From dc4d78453e104327be52737799f0604e091a79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:00 +0000
Subject: [PATCH 25/44] fix: do not add an unknown line count to frequencies of
 markers

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index c07042f..3b1f0ea 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -276,7 +276,7 @@ class EncoderScheme(abc.ABC):
                 freq = res_stats.pop(t.name)
             if idx == Reseved.UNK_IDX:
                 freq += unk_count
-            if idx in {Reseved.BOS_IDX, Reseved.EOS_IDX, Reseved.CLS_IDX} and line_count:
+            if idx in {Reseved.BOS_IDX, Reseved.EOS_IDX, Reseved.CLS_IDX} and line_count and line_count > 0:
                 freq += line_count
             if freq:
                 log.warning(f"Update frequency for reserved type {t} with {freq}")
-- 
2.43.0


From f80845df97bd55821dd26c7d8a05eab4450c2f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 26/44] fix: evaluation tools do not count the line breaks of
 files as tokens

---
 nlcodec/eval/pr_measure.py | 2 +-
 nlcodec/eval/termfreq.py   | 2 +-
 nlcodec/qestim.py          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nlcodec/eval/pr_measure.py b/nlcodec/eval/pr_measure.py
index a1377ac..0b5b09b 100644
--- a/nlcodec/eval/pr_measure.py
+++ b/nlcodec/eval/pr_measure.py
@@ -53,7 +53,7 @@ def f1_measure(precison, recall):
 
 def main(model_path, cands, refs, n, out, freqs=None):
     codec = load_scheme(model_path)
-    cands, refs = list(cands), list(refs)
+    cands, refs = [[line.rstrip('\n') for line in lines] for lines in (cands, refs)]
     assert len(cands) == len(refs), f'cands: {len(cands)} but refs: {len(refs)} lines'
 
     cands = list(codec.encode_parallel(cands))
diff --git a/nlcodec/eval/termfreq.py b/nlcodec/eval/termfreq.py
index 34dd60d..7892feb 100644
--- a/nlcodec/eval/termfreq.py
+++ b/nlcodec/eval/termfreq.py
@@ -34,7 +34,7 @@ def encode_all(inp : Iterator[str], scheme: EncoderScheme, index=True):
 
 def main(inp, out, n, model_path):
     scheme = load_scheme(model_path)
-    seqs = scheme.encode_parallel(inp)
+    seqs = scheme.encode_parallel(line.rstrip('\n') for line in inp)
     freqs = make_n_grams_all(seqs, n)
     freqs = sorted(freqs.items(), key=lambda x:x[1], reverse=True)
     for gram, freq in freqs:
diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index a666f54..d4cffae 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -117,7 +117,7 @@ class QualityEstimator:
 def estimate(codec_path, data):
     codec = load_scheme(codec_path)
     estimator = QualityEstimator(codec)
-    estimation = estimator.estimate(data)
+    estimation = estimator.estimate(line.rstrip('\n') for line in data)
     print(estimation)
 
 
-- 
2.43.0


From 2e2db9e4b362f22eaf0584194bdb4ebd172846cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:37 +0000
Subject: [PATCH 27/44] fix: learn_vocab ignored min_co_ev for level subword,
 the other name of bpe

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 3b1f0ea..cceae12 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -655,7 +655,7 @@ def learn_vocab(inp, level, model, vocab_size, min_freq=1, term_freqs=False,
     args = {}
     if level != 'word':
         args['coverage'] = char_coverage  # no char_coverage for word
-    if level == 'bpe':
+    if issubclass(Scheme, BPEScheme):
         args['min_co_evidence'] = min_co_ev
     table = Scheme.learn(inp, vocab_size=vocab_size, min_freq=min_freq, term_freqs=term_freqs,
                          **args)
-- 
2.43.0


From 133fb56b9d69d50230f2c757198050eca7bed8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:00 +0000
Subject: [PATCH 28/44] fix: an interrupted save left a partial model that
 loads

---
 nlcodec/codec.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index cceae12..d178583 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -109,8 +109,13 @@ class Type:  # Type as in word type vs token
     @classmethod
     def write_out(cls, table: List['Type'], out: Union[Path, str, TextIO], **meta):
 
+        aside = None
         if isinstance(out, Path) or isinstance(out, str):
-            wrtr = open(out, 'w', encoding='utf8', errors='ignore')
+            out = os.path.realpath(out)
+            if os.path.isfile(out) or not os.path.exists(out):
+                # moved into place when complete, so that an interruption leaves no partial model
+                aside = f'{out}.tmp'
+            wrtr = open(aside or out, 'w', encoding='utf8', errors='ignore')
         else:
             wrtr = out
 
@@ -126,7 +131,9 @@ class Type:  # Type as in word type vs token
             wrtr.write(item.format() + '\n')
         if wrtr is not out:
             wrtr.close()
-        log.info(f"Wrote {len(table)} to {getattr(wrtr, 'name', wrtr)}")
+        if aside:
+            os.replace(aside, out)
+        log.info(f"Wrote {len(table)} to {getattr(out, 'name', out)}")
 
     @classmethod
     def read_vocab(cls, inp: Union[Path, str, TextIO]) -> Tuple[List['Type'], Optional[Dict]]:
-- 
2.43.0


From 49661ec82fa2d7128fb14e5d80d7e8521b8ad2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:00 +0000
Subject: [PATCH 29/44] fix: nlcodec-learn reused frequency files of an
 interrupted run

---
 nlcodec/learn.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nlcodec/learn.py b/nlcodec/learn.py
index 9907896..5273795 100644
--- a/nlcodec/learn.py
+++ b/nlcodec/learn.py
@@ -78,10 +78,12 @@ def main():
         else:
             with spark.session(master=master, driver_mem=driver_mem) as session:
                 words, chars, line_count = word_counts(paths=inp, dedup=dedup, spark=session)
-            with utils.IO.writer(words_file) as out:
-                write_stats(words, out, line_count=line_count)
-            with utils.IO.writer(chars_file) as out:
-                write_stats(chars, out, line_count=line_count)
+            for path, stats in ((words_file, words), (chars_file, chars)):
+                # moved into place when complete, so that only complete files are reused
+                aside = path.with_name(f'tmp-{path.name}')
+                with utils.IO.writer(aside) as out:
+                    write_stats(stats, out, line_count=line_count)
+                aside.replace(path)
 
     assert stats_file.exists()
     with utils.log_resources(name=f"learning {args['level']} vocab"):
-- 
2.43.0


From 845fdff84d04a894ff023e021ec7deef1f9f3273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:29 +0000
Subject: [PATCH 30/44] fix: the bitext command ignored the requested column
 names

---
 nlcodec/bitextdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/bitextdb.py b/nlcodec/bitextdb.py
index 777a7f5..77e9e9d 100644
--- a/nlcodec/bitextdb.py
+++ b/nlcodec/bitextdb.py
@@ -27,7 +27,7 @@ def main(args=None):
             src_len=args.src_len, tgt_len=args.tgt_len,
             src_tokenizer=src_codec.encode, tgt_tokenizer=tgt_codec.encode)
         rdd = df.rdd.map(lambda r: (r.id, (r.x, r.y)))
-        db = spark_util.rdd_as_db(rdd=rdd, db_path=args.db_path, field_names=('x', 'y'),
+        db = spark_util.rdd_as_db(rdd=rdd, db_path=args.db_path, field_names=(args.src_col, args.tgt_col),
                                   repartition=args.num_parts)
         log.info(f"stored {len(db)} recs at {args.db_path}")
 
-- 
2.43.0


From 7031a5f5d5ee408a9b01adcb6adca427e83d0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 31/44] fix: SeqField.items() gave no ids

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 3148906..660259f 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -131,7 +131,7 @@ class SeqField:
     def items(self):
         for id, idx in self.ids.items():
             start, _len = self.refs[idx]
-            yield self.data[start: start + _len]
+            yield id, self.data[start: start + _len]
 
     def lengths(self):
         return ((id, self.refs[idx, 1]) for id, idx in self.ids.items())
-- 
2.43.0


From 29037519344cb5cfafa4403db4daa0834644d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 32/44] fix: parts kept in memory were never shuffled

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 660259f..f7d72c8 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -338,7 +338,7 @@ class MultipartDb:
         self.shuffle =  shuffle
         self.mem = [None] * len(parts)
         if self.keep_in_mem:
-            self.mem = [Db.load(p, rec_type=rec_type) for p in parts]
+            self.mem = [Db.load(p, rec_type=rec_type, shuffle=shuffle) for p in parts]
 
     def __len__(self):
         return self._len
-- 
2.43.0


From cdb3c1a40cdf98649e6dfde03c7e8868db38df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 33/44] fix: batches from a directory named by a string failed

---
 nlcodec/db/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index 1c9c092..db1b384 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -219,7 +219,7 @@ class BatchIterable(Iterable[Batch]):
         assert data_path.exists(), f'Invalid State: {data_path} is NOT found.'
         if data_path.is_file():
             self.data = Db.load(data_path, rec_type=IdExample)
-        elif self.data_path.is_dir():
+        elif data_path.is_dir():
             self.data = MultipartDb.load(data_path, rec_type=IdExample, keep_in_mem=keep_in_mem)
         else:
             raise Exception(f'Invalid State: {data_path} is should be a file or dir.')
-- 
2.43.0


From c75fa1009a7ad77c2fddd62aff805351f9f1e283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 34/44] fix: sort_by='random' did not randomize the order

---
 nlcodec/db/batch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index db1b384..016c5fb 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -216,11 +216,13 @@ class BatchIterable(Iterable[Batch]):
         if not isinstance(data_path, Path):
             data_path = Path(data_path)
 
+        shuffle = sort_by == 'random'
         assert data_path.exists(), f'Invalid State: {data_path} is NOT found.'
         if data_path.is_file():
-            self.data = Db.load(data_path, rec_type=IdExample)
+            self.data = Db.load(data_path, rec_type=IdExample, shuffle=shuffle)
         elif data_path.is_dir():
-            self.data = MultipartDb.load(data_path, rec_type=IdExample, keep_in_mem=keep_in_mem)
+            self.data = MultipartDb.load(data_path, rec_type=IdExample, keep_in_mem=keep_in_mem,
+                                         shuffle=shuffle)
         else:
             raise Exception(f'Invalid State: {data_path} is should be a file or dir.')
 
-- 
2.43.0


From 3be1a71167c9f99baacfa67cb0081cdb88480378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:56 +0000
Subject: [PATCH 35/44] fix: the word <!S!> was counted as lines, and files
 without lines failed

---
 nlcodec/term_freq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/term_freq.py b/nlcodec/term_freq.py
index b51b6fe..48bbe41 100644
--- a/nlcodec/term_freq.py
+++ b/nlcodec/term_freq.py
@@ -39,7 +39,7 @@ def word_counts(paths: List[Path], dedup=True, spark=None) \
         if dedup:
             log.info("Dropping duplicates")
             df = df.drop_duplicates()
-        SENT_TAG = '<!S!>'
+        SENT_TAG = '<!S!> '  # the space keeps it apart from all words
         # Tokenize
         # also include a special token, one per line to count lines
         # expand words as sep records
@@ -47,7 +47,7 @@ def word_counts(paths: List[Path], dedup=True, spark=None) \
             .map(lambda word: (word, 1)) \
             .reduceByKey(lambda v1, v2: v1 + v2) \
             .collectAsMap()
-        line_count = word_freqs.pop(SENT_TAG)
+        line_count = word_freqs.pop(SENT_TAG, 0)
         # word_freqs = list(sorted(word_freqs.items(), key=lambda x: x[1], reverse=True))
 
         # char freqs
-- 
2.43.0


From 0cc5da5c01b99f7722efe6ef3b47d23d9ee2d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:51 +0000
Subject: [PATCH 36/44] fix: IO used the encoding of the locale for text modes
 without t

---
 nlcodec/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index 5b9aaf6..457c9ee 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -84,7 +84,7 @@ class IO:
         self.path = path if type(path) is Path else Path(path)
         self.mode = mode
         self.fd = None
-        self.encoding = encoding if encoding else 'utf-8' if 't' in mode else None
+        self.encoding = encoding if encoding else None if 'b' in mode else 'utf-8'
         self.errors = errors if errors else 'replace'
 
     def __enter__(self):
-- 
2.43.0


From 2edbeeec34424576fea0aaab77a3a23ee55c7232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:47 +0000
Subject: [PATCH 37/44] fix: repeated names of merges changed ids during
 tracking

---
 nlcodec/eval/bpe_len.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index 27a8f26..60bd718 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -56,7 +56,7 @@ class BPECodecXt(BPEScheme):
         assert len(self.table) == len(self.idx_to_str) == merge.idx
         self.table.append(merge)
         self.idx_to_str.append(merge.name)
-        self.str_to_idx[merge.name] = merge.idx
+        self.str_to_idx.setdefault(merge.name, merge.idx)  # the first of equal names, as in BPEScheme
         node = self.root.get_node(idxs=merge.name, create_missing=True)
         node.name = merge.name
         node.data = merge
-- 
2.43.0


From 605e85d48dfc8b1ba897db358abc767266a6b5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:30 +0000
Subject: [PATCH 38/44] fix: equal-length batches failed for ids that are not
 64-bit integers

---
 nlcodec/db/core.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index f7d72c8..be50c2a 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -231,23 +231,25 @@ class Db:
         fields = list(self.fields.values())
         rows = []
         skip_counter = defaultdict(int)
-        for _id in self.ids:
+        ids = list(self.ids)   # of any type, so rows have the index
+        for idx, _id in enumerate(ids):
             lens = tuple(field.get_len(_id) for field in fields)
             if min(lens) < min_len:
                 skip_counter[f'len < {min_len}'] += 1
             else:
-                rows.append((_id, max(lens)))
+                rows.append((idx, max(lens)))
         if len(skip_counter) > 0:
             log.warning(f"Skipped :: {skip_counter}")
         if not rows:
             return []
-        rows = np.array(rows)  # id, len
+        rows = np.array(rows)  # index of id, len
         np.random.shuffle(rows)  # in-place, along the first axis; for extra rand within len group
         rows = rows[rows[:, 1].argsort()]  # sort by second col wiz len
         batches = []
         batch = []
         max_len = 0
-        for _id, _len in rows:
+        for idx, _len in rows:
+            _id = ids[idx]
             if _len < 1:
                 log.warning(f"Skipping record {_id}, either source or target is empty")
                 continue
@@ -256,14 +258,14 @@ class Db:
                 if _len > max_toks:
                     raise Exception(f'Unable to make a batch of {max_toks} toks'
                                     f' with a seq of len:{_len}')
-                batches.append(np.array(batch))
+                batches.append(batch)
                 batch = []  # new batch
                 max_len = 0
 
             batch.append(_id)  # this one can go in
             max_len = max(max_len, _len)
         if batch:
-            batches.append(np.array(batch))
+            batches.append(batch)
         return batches
 
     def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf'), allow_empty=False):
-- 
2.43.0


From c17d484d1713ca7921ef70533121b17460e53548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 39/44] fix: autoregressive masks failed with AttributeError on
 the arrays of batches

---
 nlcodec/db/batch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index 016c5fb..c2e50f0 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -168,8 +168,8 @@ class Batch:
     @staticmethod
     def make_autogres_mask_(seqs, pad_val: int):
         "Create a mask to hide padding and future words."
-        tgt_mask = (seqs != pad_val).unsqueeze(1)
-        tgt_mask = tgt_mask & subsequent_mask(seqs.size(-1)).type_as(tgt_mask.data)
+        tgt_mask = np.expand_dims(seqs != pad_val, 1)
+        tgt_mask = tgt_mask & subsequent_mask(seqs.shape[-1])
         return tgt_mask
 
 
@@ -184,7 +184,7 @@ def subsequent_mask(size):
     triu = np.triu(ones, k=1)
     # invert it
     mask = triu == 0
-    mask = mask.unsqueeze(0)
+    mask = np.expand_dims(mask, 0)
     return mask
 
 
-- 
2.43.0


From 1a313c6f47d3f98d88c118f3f46a3c9a460a2520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:52 +0000
Subject: [PATCH 40/44] fix: a virama before punctuation, signs or full vowels
 was lost by the Abugida converter

---
 experimental/unicode_fix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experimental/unicode_fix.py b/experimental/unicode_fix.py
index 12c339a..d9690f2 100644
--- a/experimental/unicode_fix.py
+++ b/experimental/unicode_fix.py
@@ -158,8 +158,9 @@ class AbugidaLang(Lang):
                 pass  # this shouldn't be happening. but the input data can be noisy
             elif self.is_consonant(codes[i]):
                 dec.append(codes[i])  # copy and look ahead next
-                if is_ending or self.is_consonant(codes[i + 1]):
-                    dec.append(self.virama)  # restore virama between two consonants
+                if is_ending or not self.is_vowel(codes[i + 1]) \
+                        or codes[i + 2: i + 3] == [internal_full_vowel]:
+                    dec.append(self.virama)  # restore virama, as no vowel of this consonant follows
             elif self.is_vowel(codes[i]):
                 # look ahead, dont modify this vowel to its form if there is a marker
                 if not is_ending and codes[i + 1] == internal_full_vowel:
-- 
2.43.0


From 0d877b905b61f55ca21b861b5c5fdf9cefec78ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:04 +0000
Subject: [PATCH 41/44] fix: tokens above 2**53 lost precision when a marker
 was added to them

---
 nlcodec/db/batch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index c2e50f0..3aa7eba 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -130,6 +130,7 @@ class Batch:
         seq = getattr(obj, field_name)
         if exist:
             if seq[pos] != val:
+                seq = np.asarray(seq, dtype=int)  # for uint64 is promoted to float
                 if pos == 0:
                     seq = np.append(np.int32(val), seq)
                 else:  # pos = -1
-- 
2.43.0


From de146727bb5391edec19a1025e355bf1eb457afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:04 +0000
Subject: [PATCH 42/44] fix: a StopIteration in a worker ended parallel
 encoding early without an error

---
 nlcodec/codec.py |  4 +++-
 nlcodec/utils.py | 11 +++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index d178583..ba003bc 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -13,7 +13,8 @@ from typing import List, TextIO, Dict, Tuple, Union, Iterator, Optional
 import multiprocessing as mp
 from nlcodec import __version__, log
 from nlcodec.dstruct import TrNode
-from nlcodec.utils import filter_types_coverage, IO
+from nlcodec.utils import filter_types_coverage, call_no_stop, IO
+from functools import partial
 import os
 import sys
 import random
@@ -239,6 +240,7 @@ class EncoderScheme(abc.ABC):
 
     @classmethod
     def parallel_map(cls, mapper, collection, n_cpus=N_CPUS, name='', chunksize=1000):
+        mapper = partial(call_no_stop, mapper)
         assert n_cpus > 1, f'at least 2 CPUs needed. chunksize={chunksize}'
         log.info(f"Going to use {n_cpus} parallel processes {name}")
         with mp.Pool(processes=n_cpus) as pool:
diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index 457c9ee..1715e3f 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -128,6 +128,17 @@ class IO:
                 yield from stream
 
 
+def call_no_stop(func, *args):
+    """
+    calls func. If it raises StopIteration, then raises RuntimeError instead, because to those
+     who iterate over the results of calls, a StopIteration is the end of results, not an error
+    """
+    try:
+        return func(*args)
+    except StopIteration as e:
+        raise RuntimeError('StopIteration in the call') from e
+
+
 @contextmanager
 def log_resources(name=""):
     """
-- 
2.43.0


From 56d6e5f864323e1e91362f73bf701e29f54302a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:04 +0000
Subject: [PATCH 43/44] fix: a StopIteration in a mapper or reducer cut the
 map-reduce result without an error

---
 nlcodec/para/mapred.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nlcodec/para/mapred.py b/nlcodec/para/mapred.py
index 7a5ac46..87799cc 100644
--- a/nlcodec/para/mapred.py
+++ b/nlcodec/para/mapred.py
@@ -12,6 +12,8 @@ import itertools
 import logging as log
 from functools import partial
 
+from nlcodec.utils import call_no_stop
+
 log.basicConfig(level=log.DEBUG)
 
 @dataclass
@@ -51,7 +53,7 @@ class IterativeReducer(Generic[T]):
 
     def dispatcher(self, args):
         assert len(args) == 2
-        return self.func(args[0], args[1])
+        return call_no_stop(self.func, args[0], args[1])
 
     def __call__(self, iterator: Iterator[T], pool=map) -> T:
         try:
@@ -81,7 +83,8 @@ class MapReduce:
     default: Any  # default for reducer, to pair the odd item
 
     def __call__(self, input, map_pool=None, reduce_pool=None):
-        mapped = map_pool(self.mapper, input)
+        mapper = partial(call_no_stop, self.mapper)
+        mapped = map_pool(mapper, input)
         reduced = ireduce(reduce_func=self.reducer, default=self.default, data=mapped,
                           pool=reduce_pool)
         return reduced
-- 
2.43.0


From 43264ece1e032ca41db7975ff06abccd659b8f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:13 +0000
Subject: [PATCH 44/44] fix: two savings of one path at a time spoil each other
 (a file aside of its own for each, removed on errors)

---
 nlcodec/codec.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index ba003bc..e29793a 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -18,6 +18,7 @@ from functools import partial
 import os
 import sys
 import random
+import uuid
 
 
 N_CPUS = max(1, mp.cpu_count() - 1)
@@ -110,13 +111,20 @@ class Type:  # Type as in word type vs token
     @classmethod
     def write_out(cls, table: List['Type'], out: Union[Path, str, TextIO], **meta):
 
-        aside = None
         if isinstance(out, Path) or isinstance(out, str):
             out = os.path.realpath(out)
             if os.path.isfile(out) or not os.path.exists(out):
                 # moved into place when complete, so that an interruption leaves no partial model
-                aside = f'{out}.tmp'
-            wrtr = open(aside or out, 'w', encoding='utf8', errors='ignore')
+                aside = os.path.join(os.path.dirname(out), f'.{uuid.uuid4().hex}.tmp')
+                try:
+                    with open(aside, 'w', encoding='utf8', errors='ignore') as wrtr:
+                        cls.write_out(table, wrtr, **meta)
+                    os.replace(aside, out)
+                finally:
+                    if os.path.exists(aside):
+                        os.remove(aside)
+                return
+            wrtr = open(out, 'w', encoding='utf8', errors='ignore')
         else:
             wrtr = out
 
@@ -132,8 +140,6 @@ class Type:  # Type as in word type vs token
             wrtr.write(item.format() + '\n')
         if wrtr is not out:
             wrtr.close()
-        if aside:
-            os.replace(aside, out)
         log.info(f"Wrote {len(table)} to {getattr(out, 'name', out)}")
 
     @classmethod
-- 
2.43.0

