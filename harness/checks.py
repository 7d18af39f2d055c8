"""What each check consists of."""
CHECKS = {}


def check(prop, technique, level="model_checking", note=""):
    def dec(fn):
        CHECKS[prop] = dict(fn=fn, technique=technique, level=level, note=note)
        return fn
    return dec


@check("C01", "TLA+ grammar (CsvParser): machine model-checked with TLC (CsvParserMC); recorded reads validated by TLC "
       "against it (TraceParser)")
def c01(x):
    x.mc("CsvParserMC", "CsvParserMCq" if x.quick else "CsvParserMC")
    x.mc("ScaleMC", "ScaleMCq" if x.quick else "ScaleMC")
    x.trace("d_parser:c01", "TraceParser")


@check("C02", "TLA+ system of several readers (ReaderSys) model-checked; its behaviours replayed on real readers "
       "(ReaderSysSim); recorded interleavings validated by TLC (TraceReaders)")
def c02(x):
    x.mc("ReaderSysMC")
    x.replay("d_parser:c02_replay", x.behaviours("ReaderSysSim", num=4000 if x.quick else 60000, depth=24))
    x.trace("d_parser:c02", "TraceReaders")


@check("C03", "TLA+ grammar with limits, strictness and error states (CsvParser, CsvParserMC); recorded reads with "
       "injected errors validated by TLC (TraceParser)")
def c03(x):
    x.mc("CsvParserMC", "CsvParserMCq" if x.quick else "CsvParserMC")
    x.trace("d_parser:c03", "TraceParser")
    x.trace("d_parser:c03_after", "TraceReaders")


@check("C04", "TLA+ writer and reader (CsvWriter, CsvParser) model-checked to be inverse (RoundTripMC); recorded writes "
       "and read-backs validated by TLC (TraceWriter)")
def c04(x):
    for cfg in ["RoundTripMC", "RoundTripMC2"] if x.quick else ["RoundTripMC2", "RoundTripMC3", "RoundTripMC4"]:
        x.mc("RoundTripMC", cfg)
    x.mc("ScaleWriteMC")
    x.trace("d_writer:c04", "TraceWriter")


@check("C05", "TLA+ algebra of dialects (Dialect) model-checked (DialectMC); recorded comparisons, conversions and uses "
       "through every form validated by TLC (TraceDialect, TraceWriter)")
def c05(x):
    x.mc("DialectMC")
    x.trace("d_writer:c05", "TraceDialect")
    x.trace("d_writer:c05_write", "TraceWriter")


@check("C07", "TLA+ model of DictReader (DictRW) model-checked for independence of the order of access (DictRWMC); its "
       "behaviours replayed; recorded histories validated by TLC (TraceDictReader)")
def c07(x):
    x.mc("DictRWMC")
    x.replay("d_dict:c07_replay", x.behaviours("DictRWSim", num=3000 if x.quick else 40000, depth=24))
    x.trace("d_dict:c07", "TraceDictReader")


@check("C08", "TLA+ model of DictWriter and its inverse (DictRW, CsvWriter); recorded histories of writes and the "
       "dictionaries read back validated by TLC (TraceDictWriter)")
def c08(x):
    x.mc("DictRWMC")
    x.trace("d_dict:c08", "TraceDictWriter")


@check("C17", "TLA+ definition of the abstraction and score as reference machine (Abstraction) model-checked for its "
       "structural properties (AbstractionMC); recorded abstractions and scores validated by TLC (TracePattern)")
def c17(x):
    x.mc("AbstractionMC", "AbstractionMCq" if x.quick else "AbstractionMC")
    x.mc("ScaleMC", "ScaleMCq" if x.quick else "ScaleMC")
    x.mc("RowLengthsMC")
    x.trace("d_detect:c17", "TracePattern")


@check("C18", "TLA+ definitions of the cell types over regular expressions given a formal semantics (Regex, CellTypes); "
       "recorded types validated by TLC (TraceTypes)")
def c18(x):
    x.mc("CellTypesMC", "CellTypesMCq" if x.quick else "CellTypesMC")
    x.mc("CellPumpMC", "CellPumpMCq" if x.quick else "CellPumpMC")
    x.trace("d_types:c18", "TraceTypes")


@check("C21", "TLA+ definition of the candidate dialects (Candidates, over the ordered matching semantics of Regex) "
       "model-checked (CandidatesMC); recorded candidate sets validated by TLC (TraceCandidates)")
def c21(x):
    x.mc("CandidatesMC", "CandidatesMCq" if x.quick else "CandidatesMC")
    x.mc("CandidatesPadMC", "CandidatesPadMCq" if x.quick else "CandidatesPadMC")
    x.trace("d_detect:c21", "TraceCandidates")
    x.trace("d_detect:c21_parts", "TraceParts")


@check("C20", "TLA+ definition of the normal forms (NormalForm) model-checked: a text in a form reads as the table of the form "
       "(NormalFormMC, with CsvParser); recorded detections and reads validated by TLC (TraceNormal)")
def c20(x):
    for cfg in ["NormalFormMC", "NormalFormMC2"] + ([] if x.quick else ["NormalFormMC3"]):
        x.mc("NormalFormMC", cfg)
    x.mc("ScaleUpMC", "ScaleUpMC2" if x.quick else "ScaleUpMC")
    x.mc("ScaleBlocksMC", "FormBlocksMCq" if x.quick else "FormBlocksMC")
    x.trace("d_detect:c20", "TraceNormal")


@check("C22", "TLA+ definition of the tie-breaking rules over the tables CsvParser yields (TieBreak), model-checked for its laws "
       "(TieBreakMC); recorded tie breaks validated by TLC (TraceTies)")
def c22(x):
    x.mc("TieBreakMC", "TieBreakMCq" if x.quick else "TieBreakMC")
    x.mc("ScaleUpMC", "ScaleUpMCq" if x.quick else "ScaleUpMC")
    x.mc("ScaleBlocksMC", "TieBlocksMCq" if x.quick else "TieBlocksMC")
    x.trace("d_detect:c22", "TraceTies")


@check("C13", "TLA+ definition of detection (Detect) model-checked: its answer fits every short text (DetectMC); recorded detections "
       "on texts of all kinds validated by TLC (TraceDetect)")
def c13(x):
    x.mc("DetectMC", "DetectMCq" if x.quick else "DetectMC")
    x.trace("d_detect2:c13", "TraceDetect")


@check("C14", "TLA+ definition of detection with exact scores (Detect: Candidates, NormalForm, Abstraction, CellTypes, CsvParser, "
       "TieBreak) evaluated by TLC against recorded detections (TraceDetect); model-checked in DetectMC")
def c14(x):
    x.mc("DetectMC", "DetectMCq" if x.quick else "DetectMC")
    x.mc("ScaleBlocksMC", "ScaleBlocksMCq" if x.quick else "ScaleBlocksMC")
    x.mc("PumpMC", "PumpMCq" if x.quick else "PumpMC")
    x.trace("d_detect2:c14", "TraceDetect")


@check("C15", "TLA+ model of skipping for arbitrary scores (SkipMC, with the variant that fails) and for the defined scores of all short "
       "texts (DetectMC); recorded runs with and without skipping, caches and reuse validated by TLC (TraceRuns)")
def c15(x):
    x.mc("SkipMC")
    x.mc("SkipMC", "SkipMCbad", expect="Invariant SameBest is violated")
    x.mc("DetectMC", "DetectMCq" if x.quick else "DetectMC")
    x.trace("d_detect2:c15", "TraceRuns")


@check("C16", "TLA+ specification of detection as a function of text and arguments (TraceRuns); runs recorded in processes with different "
       "hash seeds, repetitions and orders validated by TLC")
def c16(x):
    x.trace("d_detect2:c16", "TraceRuns")


@check("C19", "TLA+ definition of the scores (Detect: Abstraction, CsvParser, CellTypes) evaluated by TLC against recorded scores "
       "(TraceScores)")
def c19(x):
    x.mc("DetectMC", "DetectMCq" if x.quick else "DetectMC")
    x.mc("PumpMC", "PumpMCq" if x.quick else "PumpMC")
    x.trace("d_detect2:c19", "TraceScores")


@check("C23", "TLA+ definition of the vote (Header), counted row by row and model-checked against the definition (HeaderMC); recorded "
       "header detections with all line ends validated by TLC (TraceHeader)")
def c23(x):
    x.mc("HeaderMC", "HeaderMCq" if x.quick else "HeaderMC")
    x.mc("HeaderWideMC", "HeaderWideMCq" if x.quick else "HeaderWideMC")
    x.trace("d_header:c23", "TraceHeader")


@check("C06", "TLA+ model of histories of calls (ApiHist) and of the field size limit as shared state (SharedLimit, with the designs that fail); "
       "generated histories replayed (ApiHistSim) and recorded ones validated by TLC (TraceApi)")
def c06(x):
    x.mc("SharedLimit", "SharedLimit1")
    x.mc("SharedLimit", "SharedLimitLeaky", expect="Preserved")
    x.replay("d_api:c06_replay", x.behaviours("ApiHistSim", num=400 if x.quick else 8000, depth=33))
    x.trace("d_api:c06", "TraceApi")


@check("C25", "TLA+ model of calls in threads (Concurrent) and of the limit as shared state (SharedLimit, with the designs that fail); generated "
       "interleavings replayed under a line-level scheduler (ConcurrentSim) and recorded ones validated by TLC (TraceConc)")
def c25(x):
    x.mc("SharedLimit")
    x.mc("SharedLimit", "SharedLimitSwap", expect="Preserved")
    x.mc("SharedLimit", "SharedLimitSeen", expect="Unseen")
    x.mc("SharedLimit", "SharedLimitDetect", expect="DetectUnlimited")
    x.replay("d_conc:c25_replay", x.behaviours("ConcurrentSim", num=200 if x.quick else 4000, depth=43))
    x.trace("d_conc:c25", "TraceConc")


@check("C09", "TLA+ model of a target file and requests to write to it (Target) model-checked (TargetMC); generated histories replayed (TargetSim) "
       "and recorded ones validated by TLC (TraceTables)")
def c09(x):
    x.mc("TargetMC")
    x.replay("d_files:c09_replay", x.behaviours("TargetSim", num=1600 if x.quick else 20000, depth=10))
    x.trace("d_files:c09", "TraceTables")


@check("C10", "TLA+ model of reading a file in two passes (FileRead: DictRW, CsvParser) model-checked (FileReadMC, with the variant that fails); recorded "
       "reads through every entry point validated by TLC (TraceFiles)")
def c10(x):
    x.mc("FileReadMC")
    x.mc("FileReadMC", "FileReadMCbad", expect="SameTable")
    x.trace("d_files:c10", "TraceFiles")


@check("C11", "TLA+ model of the standardize command (Standardize: CsvParser, CsvWriter) model-checked (StandardizeMC); recorded runs of the command "
       "validated by TLC (TraceStd)")
def c11(x):
    x.mc("StandardizeMC")
    x.mc("StandardizeMC", "StandardizeMC2")
    x.trace("d_console:c11", "TraceStd")


@check("C12", "TLA+ model of editing in place on a file system with failures and kills (InPlace, refining AtomicEdit, with the designs that fail); runs of "
       "the command watched at every event, killed and made to fail, validated by TLC (TraceCrash)")
def c12(x):
    x.mc("InPlace")
    x.mc("InPlace", "InPlace_direct", expect="Intact")
    x.mc("InPlace", "InPlace_copy", expect="Intact")
    x.mc("InPlace", "InPlace_leave", expect="Clean")
    x.mc("InPlace", "InPlace_nomode", expect="ModeKept")
    x.trace("d_console:c12", "TraceCrash")


@check("C24", "TLA+ definition of what the commands print and show (Cli: Standardize, CsvParser), literals of generated programs model-checked (CliMC, "
       "with the naive variant that fails); recorded runs, with printed dialects read back and printed programs executed, validated by TLC (TraceCli)")
def c24(x):
    x.mc("CliMC")
    x.mc("CliMC", "CliMCnaive", expect="Naive")
    x.trace("d_console:c24", "TraceCli")


NOT_APPLICABLE = {}
