----------------------------- MODULE TraceAlloc -----------------------------
(* Is a recorded trace of the allocators and helpers a behaviour of Alloc?  *)
EXTENDS Alloc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Must(ok, why) == IF ok THEN TRUE ELSE PrintT(<<"REJECTED", l, why>>) /\ FALSE
Obs == UNCHANGED avars

TReset == Is("Reset") /\ blocks' = <<>> /\ vecs' = <<>> /\ stk' = [cap |-> E.cap, live |-> <<>>] /\ val' = <<>>
TEnd == Is("End") /\ Obs
\* E.at: address; E.bytes: size of the n elements; E.got: their values as read back after storing E.vals
TAlloc == /\ Is("Alloc")
          /\ Must(Aligned(E.at, E.align) /\ Aligned(E.at, E.natural), "alignment")
          /\ Must(Fits(E.at, E.bytes, E.align), "block overlaps a live block")
          /\ Must(E.got = E.vals, "values stored in a new block")
          /\ Take(E.b, E.at, E.bytes, E.vals)
TPoke == Is("Poke") /\ Poke(E.b, E.i, E.v)
TFree == /\ Is("Free")
         /\ Must(E.b \in DOMAIN blocks /\ E.vals = blocks[E.b].vals, "values of a block when it is freed")
         /\ Give(E.b)
\* values of all live blocks
TAll == /\ Is("All")
        /\ Must(\A k \in 1 .. Len(E.bs) : E.bs[k].b \in DOMAIN blocks /\ E.bs[k].vals = blocks[E.bs[k].b].vals, "values of a live block")
        /\ Must({E.bs[k].b : k \in 1 .. Len(E.bs)} = DOMAIN blocks, "blocks recorded")
        /\ Obs
THuge == Is("Huge") /\ Must(E.refused, "a request that cannot be satisfied must throw bad_alloc") /\ Obs

\* containers: contents and alignment of the storage after each operation
Seen == /\ Must(E.n = Len(E.vals), "size")
        /\ Must(E.n = 0 \/ Aligned(E.at, E.align), "alignment of a container's storage")
Old(v) == IF v \in DOMAIN vecs THEN vecs[v] ELSE <<>>
Becomes(v, s) == Must(E.vals = s, "elements of a container") /\ Seen
TVNew == Is("VNew") /\ Becomes(E.v, E.init) /\ VSet(E.v, E.vals)
TVResize == Is("VResize") /\ Becomes(E.v, Resized(Old(E.v), E.size, E.x)) /\ VSet(E.v, E.vals)
TVPush == Is("VPush") /\ Becomes(E.v, Append(Old(E.v), E.x)) /\ VSet(E.v, E.vals)
TVCopy == /\ Is("VCopy") /\ Becomes(E.v, Old(E.s))
          /\ Must(E.src = Old(E.s), "the source of a copy") /\ VSet(E.v, E.vals)
TVSwap == /\ Is("VSwap") /\ Becomes(E.v, Old(E.s)) /\ Must(E.other = Old(E.v), "the other container of a swap")
          /\ vecs' = (E.v :> E.vals) @@ (E.s :> E.other) @@ vecs /\ UNCHANGED <<blocks, stk, val>>

TSPush == /\ Is("SPush")
          /\ Must(E.ok = Room(Len(E.vals)), "the stack allocator serves a request exactly when it fits")
          /\ IF E.ok THEN Must(E.off = Top, "position in the stack buffer") /\ SPush(E.vals)
             ELSE Obs
TSPop == Is("SPop") /\ Must(stk.live # <<>>, "pop") /\ SPop
TSAll == Is("SAll") /\ Must(E.vals = val, "values of the live stack blocks") /\ Must(E.cap = stk.cap, "capacity") /\ Obs

\* construct(p): before, after without arguments (plain types keep the bytes; class types run their default
\* constructor), after with arguments
TConstruct == /\ Is("Construct")
              /\ Must(E.plain = E.before, "default initialisation must leave plain elements as they were")
              /\ Must(E.classy = 41, "default constructor of a class type")
              /\ Must(E.args = E.vals, "construction from arguments")
              /\ Must(E.copies = 0, "arguments are forwarded, not copied")
              /\ Obs
TPow == Is("Pow") /\ Must(E.r = Pow(E.b, E.x), "pow") /\ Obs
TSeq == Is("Seq") /\ Must(E.vals = Iota(E.n) /\ E.size = E.n, "index sequence") /\ Obs
TTrait == Is("Trait") /\ Must(<<E.it, E.ix>> = Traits[E.t], "type trait") /\ Obs
TStatic == Is("Static") /\ Must(E.ok, "static facts") /\ Obs
TDispatch == /\ Is("Dispatch")
             /\ Must(E.idx = Iota(E.n) /\ E.got = E.vals, "dispatch_indexed calls f(i, x_i) in order")
             /\ Must(E.written = E.n /\ E.copies = 0, "dispatch_indexed passes its arguments through")
             /\ Obs
TRange == Is("Range") /\ Must(E.got = E.vals /\ E.cgot = E.vals /\ E.wrote, "get_range covers the container") /\ Obs

TraceInit == AInit /\ l = 1
TraceNext == TReset \/ TEnd \/ TAlloc \/ TPoke \/ TFree \/ TAll \/ THuge \/ TVNew \/ TVResize \/ TVPush \/ TVCopy \/ TVSwap
             \/ TSPush \/ TSPop \/ TSAll \/ TConstruct \/ TPow \/ TSeq \/ TTrait \/ TStatic \/ TDispatch \/ TRange
TraceView == l
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"CONSUMED", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
