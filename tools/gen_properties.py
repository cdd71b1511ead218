import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
CO="cmd/coordinator/CoordinatorHandler.go"; CL="cmd/coordinator/CoordinatorLauncher.go"; CC="cmd/coordinator/Coordinator.go"
SH="cmd/server/AnonServerHandler.go"; SL="cmd/server/ServerLauncher.go"; CH="cmd/client/ClientHandler.go"; CLL="cmd/client/ClientLauncher.go"
BR="cmd/bridge/bridge.go"; UT="util/Util.go"; FO="primitive/fujiokam/FujiOkamCommitment.go"; PE="primitive/pedersen/PedersenCommitment.go"
EQ="primitive/pedersen_fujiokam/equality.go"; LR="primitive/lrs/LinkableRingSignature.go"; PS="util/shuffle/pair.go"; SS="util/shuffle/simple.go"; BI="util/shuffle/biffle.go"
NT="cmd/coordinator, cmd/server and cmd/client have no tests at all; "
hk="package-level phase functions are unexported: exported under build tag verif; sends are intercepted"
p("C01","Every announcement gives all nodes the same, correct round table",
 "After every announcement, for any number of servers and table entries and in every round, the coordinator, all servers and all registered clients hold the same generator, the same two commitment bases and the same table of pseudonyms with commitments. The table holds exactly the participants known to the coordinator, each once: the round generator raised to the participant's long-term secret, and beside it a commitment that opens under the announced bases to that participant's own reputation with that participant's own opening.",
 ["schedules","histories","configurations"],"every delivery order of protocol messages, 1..4 servers, 0..n table entries (clients and fillers), consecutive rounds",
 NT+"the guarantee spans a chain of processes whose random keys, permutations and message orders differ in every run.",
 [CL,CO,SH,CH],[("announce","cmd/coordinator/CoordinatorLauncher.go:announce"),("handleAnnouncement / handleAnnouncementFinalize","coordinator, server and client handlers"),("rebindReputation / convertToOrigin",SH)],
 ["state of coordinator, servers and clients once the announcement has reached all of them"],None,hk)
p("C02","Round end restores long-term keys with their owners' commitments",
 "After every round end the coordinator's table lists the long-term public key of every participant of that round and of every client that joined during it, each exactly once and no other key. Beside each key stands a commitment that opens, under the bases the coordinator then holds, to the reputation (after this round's votes) and the opening that the key's owner holds.",
 ["schedules","histories","configurations"],"every delivery order around round end, 1..4 servers, any entries, votes and joiners, consecutive rounds",
 NT+"it depends on every server undoing its own round key in reverse order for every entry while re-shuffling and re-randomising.",
 [CL,CO,SH,CH],[("roundEnd","cmd/coordinator/CoordinatorLauncher.go:roundEnd"),("handleRoundEnd","server and coordinator handlers"),("handleBroadcastPedersenRDiff",CH)],
 ["coordinator tables, client reputation and opening after the round-end messages have been delivered"],None,hk)
p("C03","Rounds are unlinkable in what is published: fresh values, uniform shuffles",
 "Every generator, commitment base, pseudonym and commitment published for a round differs from every one published for another round and from every long-term key, and all keys and challenges that protect a round are drawn anew. Whenever a server hands on a table of two or more entries, in an announcement or at round end, every ordering of the entries is reachable and each is produced by equally many of the server's random choices, whatever the incoming order.",
 ["inputs","histories","configurations"],"all outcomes of each server's permutation draws for 2..4 (5) entries, all rounds of the explored histories, any number of servers",
 NT+"a test sees one random permutation per run and never compares the values of two rounds.",
 [SH,PS,CL],[("round key re-drawn at round end","cmd/server/AnonServerHandler.go:handleRoundEnd"),("Shuffle's permutation","util/shuffle/pair.go:Shuffle"),("per-round base randomiser",SH)],
 ["the published tables, order of the entries in every hop's outgoing message"],None,hk)
p("C04","Reputation figures, votes and commitments always agree",
 "At the start of every round each client's own reputation figure equals the starting credit plus the sum of the votes counted for its bridges in all earlier rounds, and the published commitment beside its pseudonym opens to exactly that figure (also when it is zero or negative) with the opening the client holds. A message that reaches the coordinator after the round has been closed changes no reputation.",
 ["schedules","histories"],"all histories of up to 3 rounds of posts, requests, votes and joins by up to 3 clients, all delivery orders, late messages",
 NT+"agreement of three separately updated quantities must survive every history and message order.",
 [CO,CL,CH,BR],[("ReputationDiffMap and difference commitments","cmd/coordinator/CoordinatorLauncher.go:roundEnd"),("diff and opening broadcasts",CH),("handleVote",CO)],
 ["client reputation, client opening, published table at round start"],None,hk)
p("C05","Only genuine votes count, and they count exactly",
 "A vote changes a reputation only if its value is +1 or -1 and it is signed, over all of its content, by a pseudonym of the current table on an assignment that was issued to this very pseudonym for a provider in the current table and bears valid signatures of all servers and of the coordinator; it then changes the provider's pending reputation by exactly its value and nothing else. Every other vote message, whatever the number of its signatures and however stale its pseudonyms, changes no reputation and does not stop the coordinator, now or at round end.",
 ["inputs","histories"],"all single and paired corruptions of vote messages drawn from the fields and values of the explored histories, 1..3 servers",
 NT+"every field and every pair of cooperating fields of the message must be bound.",
 [CO,BR,CLL],[("handleVote",CO),("MessageOfVote",BR),("sendVote",CLL)],["pending reputation changes after each vote message; reputations after the round"],None,hk)
p("C06","At most one vote is counted per assignment",
 "For each assignment at most one vote is ever counted, whatever the number, order, values and timing of the vote messages sent for it: exact duplicates, newly signed or contradicting votes, votes before and during the voting phase, and replays in later rounds. Votes for different assignments neither block nor replace one another.",
 ["histories","schedules"],"all sequences up to the depth bound over {vote +1/-1 on assignment i, replay of an earlier vote, voting phase start, round change}",
 NT+"duplicate detection is a property of histories, not of a single message.",
 [CO,CL],[("handleVote",CO),("vote records",CC)],["pending reputation changes and round-end reputations"],None,hk)
p("C07","Only posts signed by a participant's current pseudonym register bridges",
 "A bridge enters the registry only through a post whose signature, over exactly that address and that pseudonym, was made by the holder of a pseudonym in the current table, and it is recorded under exactly that address and pseudonym; every such post arriving in the posting phase is recorded. Forged, altered, re-split, outsider's or earlier rounds' posts change nothing and do not stop the coordinator.",
 ["inputs","histories"],"all corruptions of post messages over the field alphabet, pseudonyms with short encodings, replays across rounds and phases",
 NT+"binding must hold for every address/pseudonym encoding and every round.",
 [CO,BR,CLL],[("handlePostBridge",CO),("MessageOfPostBridge",BR),("postBridge",CLL)],["coordinator's bridge registry"],None,hk)
p("C08","Bridge requests pass exactly when reputation covers the indicator",
 "The request an honest client makes is accepted by the coordinator and signed by every server for every indicator from zero up to its reputation. A request whose indicator exceeds the pseudonym's committed reputation, whose pseudonym is not in the table, or any of whose fields or proofs is altered, missing its relation to the others, or taken from another request, pseudonym or round is refused by the coordinator and by every server independently, consumes no bridge, earns no signature and stops no node.",
 ["inputs","histories"],"all reputation/indicator pairs of the bound (negative included), all single-field substitutions, and the enumerated families of cheating provers (wrap-around, free-choice, negative, foreign opening)",
 NT+"the accept/refuse boundary is quantified over all requests including adversarial proofs, at several independent verifiers.",
 [BR,CO,SH,CLL,EQ,FO],[("VerifyInd",BR),("VerifyNonneg",FO),("VerifyEqual",EQ)],["assignments created, signatures returned by servers, registry after the request"],None,hk)
p("C09","Every posted bridge is handed out at most once, and only in its round",
 "An accepted request is assigned exactly as many bridges as its indicator asks for or, if fewer are left, all bridges posted in this round and not yet assigned; each assignment names the requester's pseudonym, a distinct registered address and the pseudonym that posted it. No posted bridge is assigned to two requests (an address posted once is handed out once), and nothing posted in one round can be assigned in a later one.",
 ["histories","schedules"],"all sequences of posts and requests (indicators 0..3, up to 3 clients) to the depth bound, every selection order of unused bridges, round changes",
 NT+"exclusivity is an invariant over histories and over the unspecified selection order.",
 [CC,CO,CL],[("GetBridge / AssignBridges",CC),("ClearBridges",CL)],["assignments sent to servers and clients, registry"],None,hk)
p("C10","Assignments reach their requester exactly when all signatures are in",
 "An assignment is delivered only to the client that requested it, exactly once, and with one valid signature of every server and of the coordinator on that very assignment, in server order; it is delivered as soon as the last server's reply of the round has arrived. Duplicated, reordered, delayed (even past the end of the round), failed or wrongly signed replies never count, never deliver an incomplete or mixed bundle and never stop the coordinator.",
 ["schedules","histories"],"all interleavings of the replies of 1..3 servers to 1..3 requests with duplicates, failures, wrong signatures and round changes in between",
 NT+"quorum collection is a race between server replies, duplicates and the round change.",
 [CO,CC,SH],[("handleGotSignatures",CO),("AssignmentSignatures count",CC)],["signature bundles sent to clients"],None,hk)
p("C11","A client may register at any time",
 "Whenever a client's registration reaches the coordinator (before the first round, during an announcement, posting, voting or round end, or at the same time as others) the registration completes, and from the first announcement after it the client has its pseudonym in the table with a commitment to the starting credit that it can open. No registration, whatever its timing, stops a node, delays a round for ever, or changes what other participants hold.",
 ["schedules","histories"],"all positions of up to 2 registrations (and a re-registration from the same address) relative to all protocol messages and phase changes, 1..3 servers",
 NT+"the guarantee ranges over every schedule position of a registration.",
 [CO,CL,SH,CH],[("handleClientRegister*",CO),("new client buffer","cmd/coordinator/CoordinatorLauncher.go:roundEnd/clearBuffer")],["client state after the next announcement; crashes; deadlock at quiescence"],None,hk)
p("C12","Servers registering in any overlap form one chain and one joint base",
 "However the registrations of servers overlap, the servers form exactly one chain in the order in which the coordinator accepted them: forward from the coordinator through all servers and back to it, and backward in reverse. Once configuration is finished the coordinator and all servers hold the same second commitment base, and it contains a secret random exponent contributed by every server.",
 ["schedules","configurations"],"all interleavings of the registration messages of 1..4 servers",
 NT+"overlap of registrations is a schedule property.",
 [CO,SH,SL],[("handleServerRegister / handleUpdatePedersenH",CO),("handleServerRegisterReply / handleUpdateNextHop",SH)],["hops, server list and bases after configuration"],None,hk)
p("C13","Shuffle proofs accept exactly true shuffles",
 "For every list length from two, every input and every permutation, the shuffle outputs a re-encryption of the inputs in permuted order and its proof verifies; the same holds for the two-element shuffle. No proof verifies for outputs that are not such a permutation, for an altered input, output, proof or public key, including proofs built by a prover that skips or falsifies individual steps.",
 ["inputs","configurations"],"all permutations and all input assignments over a tiny group for lengths 2..4, all single-element alterations, and enumerated families of cheating provers",
 "the only test does not compile here and only runs the honest prover; soundness quantifies over all false statements and provers.",
 [PS,SS,BI],[("PairShuffle.Prove/Verify",PS),("SimpleShuffle.Prove/Verify",SS),("Biffle",BI)],["verification result, relation between inputs and outputs"],None,"proof internals of the embedded simple shuffle")
p("C14","Servers refuse tables whose shuffle proof does not hold",
 "A server that is handed a shuffled table by the previous hop, in an announcement or at round end, works on it only if the enclosed proof verifies for the enclosed tables. Otherwise it forwards nothing and its round key, key map and table stay as they were.",
 ["inputs","configurations"],"every single-field and single-element corruption of every hop message for 2..3 servers and 2..4 entries",
 NT+"refusal must hold for every corrupted message.",
 [SH],[("verifyNeffShuffle",SH)],["messages sent by the server, its state"],None,hk)
p("C15","Pedersen commitments open only to what was committed, and add up",
 "A commitment opens with the value and opening it was made from and, for a given opening, with no other value; sums and differences of commitments open to the sums and differences of values and openings, for all values including negative and wrapped ones. Raising a commitment and both bases to the same non-zero exponent preserves every opening and creates none.",
 ["inputs"],"all values, openings, exponents and bases of a small prime-order group (complete), and a boundary alphabet in the deployed group",
 "tests try a few values in one group.",
 [PE],[("CommitWithR, Verify, Add, Sub, Randomize",PE)],["results of commit, verify, add, sub, randomise"])
p("C16","Non-negativity arguments exist for every x >= 0 and for no x < 0",
 "For every non-negative committed integer in the range of reputations the argument is produced without failure and verifies, which includes finding three squares that sum to 4x+1. No argument verifies for a commitment to a negative integer, for another commitment than the one it was made for, or after any of its components is changed to a non-equivalent value, including arguments built by a prover that chooses its components freely after seeing the challenge.",
 ["inputs"],"all x of an interval (complete), boundary secrets, all single-component alterations, enumerated families of cheating provers for negative x",
 "tests check two honest values.",
 [FO],[("ProveNonneg / VerifyNonneg",FO),("decomposeThreeSquare",FO)],["verification result, decomposition"],None,"unexported three-square decomposition and generator exponents")
p("C17","Equality arguments hold exactly for commitments to the same integer",
 "For every non-negative integer in the range of reputations committed in both schemes the equality argument verifies. It does not verify when the two commitments hold different integers, even if these agree modulo the group order, nor for other commitments than those it was made for, nor after any component is changed to a non-equivalent value, including arguments whose commitments are chosen after the challenge.",
 ["inputs"],"all value pairs of an interval plus wrap-around values, all alterations, enumerated families of cheating provers",
 "the test checks the value 10.",
 [EQ],[("ProveEqual / VerifyEqual",EQ)],["verification result"])
p("C18","Honesty proofs of the generators convince exactly for honest generators",
 "Every newly registered client receives an honesty proof for all six generators that it accepts when they were generated from the common base, whatever its challenge bits, and rejects, naming the offending generator, when any single generator or answer is wrong at any challenged position. The modulus is a product of two distinct safe primes, and the answers given to any number of clients or repeated challenges never determine the secret exponent of a generator.",
 ["inputs","histories","schedules"],"all challenge patterns over the bit alphabet per position, all single corruptions, all histories of up to 2 clients and repeated challenges",
 "tests run one honest exchange; reuse across exchanges is a history property.",
 [FO,CO,CH],[("GnHonesty functions",FO),("handleGnHonestyChallenge",CO),("handleGnHonestyAnswer",CH)],["client acceptance, answers sent by coordinator"],None,"secret exponents of the generators")
p("C19","ElGamal signatures and encryption are correct, bound and leak no key",
 "A signature verifies for exactly the message, key and base it was made with and with no other challenge or response, and decryption returns exactly the encrypted point, for all keys, bases, messages and points. No two signatures issued by a node's key for different messages, by any node in any round, reveal that key through repeated randomness.",
 ["inputs","histories"],"all keys, nonces, bases of a small group, message and corruption alphabet; all signatures emitted in the explored protocol histories",
 "no test covers signatures; randomness reuse only shows across signatures of a history.",
 [UT,CC,CLL,SH],[("ElGamalSign/Verify/Encrypt/Decrypt",UT)],["signatures on the wire"],None,hk)
p("C20","Linkable ring signatures: complete, unforgeable, and linked per signer",
 "Every ring member's signature verifies for its message and ring, for every ring size, position and message; it verifies for no other message or ring, with no other linking value, with no surplus, missing or non-equivalently changed component, and no signature built without a member's secret verifies. Two accepted signatures on the same message and ring are linked exactly when the same member made them, and the linking value cannot be varied by the signer. Signatures on different messages or for different rings are not linked, and no two signatures share their randomness.",
 ["inputs"],"all ring sizes to the bound, all signer positions, keys of a small group and of the deployed group, all component alterations (added, dropped, shifted by the modulus, negated) and enumerated forgers",
 "tests sign once with one ring.",
 [LR],[("SignHelper / VerifyHelper / Linkable",LR)],["verification and linking results"])
p("C21","Everything put on the wire is decoded to what was encoded",
 "Every value the nodes exchange (points, secrets, integers of either sign, lists of these including empty and singleton lists, boolean lists, arguments, signatures, assignments and whole events) is decoded to a value equal to the encoded one, whatever its magnitude or leading zero bytes. The encodings of different values differ.",
 ["inputs"],"all values of boundary alphabets and all lists of them up to the length bound, for every codec",
 "tests cover one or two random values of three codecs.",
 [UT,BR,"primitive/lrs/Encoding.go","util/DataTypes.go","proto/Event.go"],[("Encode*/Decode* functions",UT)],["decoded values"])
p("C22","Signed protocol messages bind every field",
 "In each of the four signed messages (bridge post, bridge request, vote, signature bundle to a client) changing any field, swapping fields between two genuine messages, or moving bytes between neighbouring fields while keeping the signature makes the receiver ignore it. The unaltered message is accepted by its receiver.",
 ["inputs"],"all single-field substitutions from an alphabet including other genuine messages' values, all boundary moves between neighbouring fields",
 NT+"binding ranges over all alternative field values.",
 [BR,CO,CH],[("MessageOf* functions",BR),("ElGamalVerify at each receiver",UT)],["receiver state change after each variant"],None,hk)
p("C23","Phase changes and incoming messages never interleave inside a node",
 "Whatever the interleaving of a node's own actions (the coordinator's phase changes, a client's commands) with the handling of incoming messages, the outcome is the same as if one had completely preceded the other. No interleaving crashes or deadlocks the node.",
 ["schedules"],"all interleavings, at every statement of the nodes' packages, of each phase change or command with each incoming message kind, up to the preemption bound",
 NT+"it quantifies over preemption points.",
 [CL,CO,CLL,CH],[("listener goroutine and main goroutine","startServerListener/startClientListener and Launch")],["node state and messages sent afterwards"],None,"preemption points at sends and random draws")
p("C24","Each event sent is handled exactly once and intact",
 "Every event a node sends is handled by the addressed listener exactly once, complete and with the sender's address, and events sent one after the other to one listener are handled in that order. This holds for every way the connection delivers the bytes in pieces and for every number of connections waiting at the same time, and no bytes of one event leak into another.",
 ["schedules","inputs"],"all fragmentations of events into up to 3 pieces over a cut alphabet, all orders of up to 3 pending connections, events from empty to several hundred kilobytes",
 "no test opens a socket.",
 [UT,CL,SL,CLL],[("SendEvent",UT),("start*Listener loops","launchers")],["events handled by the real listener loops"],None,hk)
p("C25","Proofs and commitments reveal nothing beyond their statements",
 "No efficient observer of commitments, proofs, shuffles and signatures learns a participant's reputation, the permutation of a shuffle or the signer of a ring signature, beyond what the protocol discloses.",
 ["inputs"],"all computationally bounded observers",
 "indistinguishability is a statement about distributions and adversaries, not about executions.",
 [PE,FO,EQ,PS,LR],[("randomised commitments and proofs","primitive, util/shuffle")],["distribution of transcripts"])
p("C26","What is typed at a node's console is exactly what the node does",
 "A line typed at a client has exactly the effect it states: 'post A' offers address A, 'get N' asks for N bridges if N is within the client's reputation, 'vote I F' casts a vote of F's sign on assignment I, each as one message to the coordinator under the client's current pseudonym, and 'exit' ends the client. Any other line, an incomplete or malformed command included, sends nothing, changes nothing and stops nothing. Each ENTER typed when the coordinator asks for one takes it exactly one phase on, nothing else does, and each phase tells exactly the nodes it concerns, once each. Every launched server and client registers once, at the configured coordinator, with its own public key and under the address at which it listens.",
 ["inputs","histories","configurations"],"all lines of a command alphabet (numbers, signs, separators, lengths up to 20000 characters) in all client situations, all sequences of up to 3 lines, all histories of rounds typed at the real main loops, port configurations",
 NT+"the main loops are never run by any test.",
 [CLL,CL,SL,UT],[("Launch","cmd/client/ClientLauncher.go, cmd/coordinator/CoordinatorLauncher.go, cmd/server/ServerLauncher.go"),("ReadConfig",UT)],["messages sent and node state after each line"],None,hk)
p("C27","Every secret is covered by full, fresh randomness of its own",
 "The opening of every commitment, the ephemeral key of every encryption and every mask in a ring signature, shuffle proof, non-negativity argument, equality argument or honesty proof is drawn over its whole range and anew each time: none is short, fixed, or the same (or the negative) of another number of the same proof or of an earlier one, and different draws give different results. No published response hands out the secret it answers for: dividing it by the challenge does not give the opening's leading half away.",
 ["inputs","histories"],"all draws of a signer, committer or encrypter in small groups, all masks of repeated proofs over an alphabet of values, all pairs of masks",
 "tests only check that what was proved is accepted; they never look at the numbers drawn.",
 [PE,FO,EQ,PS,SS,BI,LR,UT],[("genRandomSecret, GenResponseMask, ProveNonnegHelper, GenerateGnHonestyProof",FO),("ProveEqual",EQ),("SignHelper",LR),("Prove",PS),("ElGamalEncrypt",UT)],["published commitments, signatures and proofs; openings returned to their owner"],None,"secret exponents of the bases are exported under build tag verif")
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
