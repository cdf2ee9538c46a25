"""How each property is checked: number of cases per tier, build flags, what the evidence counts."""

SIM = ["C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
       "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C36", "C37"]
PLAN = {p: dict(quick=4800, thorough=120000) for p in SIM}
for _p in ("C11", "C14", "C15", "C19", "C23", "C24", "C25", "C26"):
    PLAN[_p] = dict(quick=7200, thorough=160000)
for _p in ("C33", "C34", "C35", "C38"):
    PLAN[_p] = dict(quick=1200 if _p == "C35" else 4000, thorough=60000)
PLAN["C39"] = dict(quick=6000, thorough=300000)
PLAN["C40"] = dict(quick=6000, thorough=300000)
PLAN["C04"] = dict(quick=8000, thorough=400000)
PLAN["C30"] = dict(stuck_ok=True, quick=640, thorough=20000)
PLAN["C29"] = dict(quick=1200, thorough=40000)
PLAN["C32"] = dict(quick=2400, thorough=60000)
PLAN["C41"] = dict(quick=6400, thorough=100000)
PLAN["C31"] = dict(race=True, race_scope=r"\)\.Player(BuyIn|Addon|Refund)\(|concReq|opConc", procs=4, quick=720, thorough=30000)
RULES = {
    "*": "One case is one simulated competition with random settings (mode, blind structure, breaks, re-buy, add-on and advancement rules) driven through a "
         "random history of requests, table reports (late, repeated, foreign, after the end) and time; every step's state change, table commands and announcements are "
         "compared with the trace specification. A case is non-trivial when the property's precondition occurred in it, and distinct by the multiset of situations of the "
         "property it met.",
}
LEVEL_NOTES = {}
TECH = {
    "*": "online trace-specification monitor over simulated-time executions of the real engine on recorded tables",
}
LEVEL_NOTES["*"] = ("Exploration: holds on every recorded execution of the run. Every request, table report and timer of a randomised simulated competition is compared "
                    "with an executable specification (state, table commands, announcements). Trusts the specification, the recorded tables' resemblance to pokertable and Go's synctest clock.")

RULES["C33"] = ("One case is one table of bots playing one to four hands of the real poker engine (pokerface) with random stacks, antes, blinds and rules; every state is delivered to "
                "every bot (also twice, late, after the next hand has begun, after a refused move, and while the table is not being played) and every answer is compared with the moves the state allows and applied to the game. "
                "Distinct by the multiset of situations met.")
RULES["C34"] = ("One case is one human player's runner at a table of the real poker engine: random action time and threshold, own moves (also with the table going on before the move "
                "returns), the table moving on or stopping without the player, late states also of the hand before, refused moves, time-outs, auto mode on and off; every move and its exact time is compared with the model of the player's status. Distinct by the multiset of situations met.")
RULES["C35"] = ("One case is two hands of the real poker engine shown to every player's runner and an outsider in every state and table status; each view is compared field by field with the "
                "table, and the shared table is compared before and after showing it and after the view was overwritten. Distinct by the multiset of situations met.")
LEVEL_NOTES["C33"] = "Exploration: holds for every answer of every bot in the recorded hands. The real pokerface engine judges the moves; the workload delivers the states as pokertable does."
LEVEL_NOTES["C34"] = "Exploration: holds on every recorded history of turns, time-outs and own moves under a simulated clock; trusts the model of the player's status (running, idle, auto)."
LEVEL_NOTES["C35"] = "Exploration: holds for every view handed out in the recorded hands; what a player may see is taken from the rules (own cards; all non-folded cards once the game is closed)."
for _p in ("C33", "C34"):
    TECH[_p] = "online monitor of every move of the real actor package, driven through real pokerface hands under a simulated clock"
TECH["C35"] = "online monitor comparing every player view with the table it was made from, over real pokerface hands"
RULES["C04"] = ("One case is one competition setting (valid, random or at the edge of one rule; with a working or failing table backend; created directly or through the manager) and the creation's result, "
                "tables and state compared with the rules. Distinct by the multiset of situations met.")
RULES["C29"] = ("One case is a manager with two to four competitions over one table backend, driven through interleaved requests, table reports (also misrouted ones), unknown, closed and released ids, closes and "
                "resets; every step is compared with the specification of the competition it names and every other competition must stay as it was. Distinct by the multiset of situations met.")
RULES["C30"] = ("Three of four cases send sixty random commands and table events through the native backend over a recording table manager; every fourth is a whole competition of bots over the real table "
                "engine. Distinct by the multiset of situations met.")
LEVEL_NOTES["C04"] = "Exploration: holds for every setting tried; the rules of validity are taken from the error constants and the engine's documented defaults, times within the current second are accepted either way."
LEVEL_NOTES["C29"] = ("Exploration: holds on every recorded interleaving. Deviations a competition also shows without a manager are left to the other checks. One open finding (several competitions over one native "
                      "backend) is excluded from the workload except for its own scenario.")
LEVEL_NOTES["C30"] = ("Exploration: holds for every command and event sent and every competition played. The competitions played use nine seats, default rules and no re-buys, and one stall is excused, because this "
                      "pokertable version does not deal reliably otherwise.")
TECH["C04"] = "differential monitor of creations against the validation rules over random and edge settings, with fault injection"
TECH["C29"] = "online trace-specification monitor of several managed competitions sharing recorded tables"
TECH["C30"] = "recording table manager with pointer-sharing detector, and spied whole competitions of bots over the real table engine"

RULES["C32"] = ("Half of the cases are simulated competitions, judged step by step by the specification, in which a random few table commands fail. In the other half tables report updates, reservations, "
                "settled hands, readiness and the end of dealing from inside commands (nested up to three deep), listeners query or close the competition from inside announcements, and commands fail too; "
                "every call must return within twenty simulated seconds, every failed command must be announced or returned, nothing may panic, and at the end a buy-in, 30 s of play and a close must work as "
                "specified. Distinct by the multiset of situations met.")
LEVEL_NOTES["C32"] = ("Exploration: holds on every recorded history. Two open findings (the pinned regulator library loses or endlessly re-sends players whose seating fails) end a case without judging what follows; "
                      "settled hands are not reported from inside the balancer's own commands, because that library is not re-entrant.")
TECH["C32"] = "fault and re-entrancy injection into simulated executions, with return, panic, reporting and after-effect monitors"

RULES["C31"] = ("One case is one simulated competition in which batches of two to twelve buy-ins, re-buys, add-ons and refunds (often of the same player or for the last seats) are issued at the same moment "
                "from goroutines of their own, with random delays inside every table command and announcement. Results, state, table commands and announcements must equal the specification applied to the "
                "requests one after the other in some order; the race detector watches the engine. Distinct by the multiset of situations met.")
LEVEL_NOTES["C31"] = ("Exploration: holds for every interleaving the scheduler produced on 4 processors under the race detector. Races between timers or table reports and requests are counted, not judged: "
                      "the property is about registration requests only.")
TECH["C31"] = "Go race detector and linearizability check of concurrent requests against the executable specification"

RULES["C38"] = ("Half of the cases are tables of bots (as in C33), half one human player's runner (as in C34), in real pokerface hands with states that are repeated, late, or arrive before the move "
                "has returned; every announcement of a move is compared with the accepted move and the state it was made in. Distinct by the multiset of situations met.")
LEVEL_NOTES["C38"] = "Exploration: holds for every move in the recorded hands; the chips a call or an all-in puts in are taken from the real pokerface state the move was made in."
TECH["C38"] = "online monitor comparing announced with accepted moves of the real actor package in real pokerface hands under a simulated clock"

RULES["C39"] = ("One case is one to three actors over the table engine adapter with random tables: moves through the adapter and through Actions (accepted and refused by the table), new, repeated and simultaneous "
                "table states, shared tables overwritten afterwards; every table command, error, shown table and answer is compared with the request. Distinct by the multiset of situations met.")
LEVEL_NOTES["C39"] = "Exploration: holds for every move and every table shown; the table engine is a recording stand-in for pokertable's."
TECH["C39"] = "recording table engine and runner around the real actor and adapter, with sharing and overlap detectors"

RULES["C41"] = ("One case is a simulated competition in which table commands are refused by chance (all kinds, or those of one property; in a quarter of the cases with reports, queries and closes from inside "
                "commands and announcements, the balancer's commands too). Every refusal carries an error of its own, looked for in the call's return, in the answers to table reports and among the "
                "announced errors of the same step; every announced error must be one of them. Distinct by the multiset of (operation, refused command, way it was told).")
LEVEL_NOTES["C41"] = "Exploration: holds for every refused command of the run. An error may be told more than once and may be wrapped; errors of the competition's own are admitted in the three situations the property names."
TECH["C41"] = "fault injection with individually tagged errors into simulated executions, and a per-refusal reporting monitor"
RULES["C40"] = ("One case is one competition with random contents (every field, players, tables and blinds) that is asked every question of the Competition type, changed and asked again, written as JSON and read back, "
                "turned into a table's setting and into the player's view; every answer is computed a second time from the contents. Distinct by the multiset of answers.")
LEVEL_NOTES["C40"] = "Exploration: holds for every competition tried; the second computation is written from the field comments and constants."
TECH["C40"] = "differential monitor of every query, the JSON form and the player's view over random competitions"
