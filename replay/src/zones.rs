/// zone abbreviation -> minutes east of UTC
pub const ZONES: &[(&str, i32)] = &[
    ("ACDT", 630),
    ("ACST", 570),
    ("ACT", 570),
    ("ACWST", 525),
    ("ADT", -180),
    ("AEDT", 660),
    ("AEST", 600),
    ("AFT", 270),
    ("AKDT", -480),
    ("AKST", -540),
    ("ALMT", 360),
    ("AMST", -180),
    ("AMT", 240),
    ("ANAT", 720),
    ("AQTT", 300),
    ("ART", -180),
    ("AST", 180),
    ("AST", -240),
    ("AWST", 480),
    ("AZOST", 0),
    ("AZOT", -60),
    ("AZT", 240),
    ("BIOT", 360),
    ("BIT", -720),
    ("BNT", 480),
    ("BOT", -240),
    ("BRST", -120),
    ("BRT", -180),
    ("BST", 60),
    ("BTT", 360),
    ("CAT", 120),
    ("CCT", 390),
    ("CDT", -300),
    ("CEST", 120),
    ("CET", 60),
    ("CHADT", 825),
    ("CHAST", 765),
    ("CHOST", 540),
    ("CHOT", 480),
    ("CHST", 600),
    ("CHUT", 600),
    ("CIST", -480),
    ("CKT", -600),
    ("CLST", -180),
    ("CLT", -240),
    ("COST", -240),
    ("COT", -300),
    ("CST", -360),
    ("CVT", -60),
    ("CWST", 525),
    ("CXT", 420),
    ("DAVT", 420),
    ("DDUT", 600),
    ("DFT", 60),
    ("EASST", -300),
    ("EAST", -360),
    ("EAT", 180),
    ("ECT", -300),
    ("EDT", -240),
    ("EEST", 180),
    ("EET", 120),
    ("EGST", 0),
    ("EGT", -60),
    ("EST", -300),
    ("FET", 180),
    ("FJT", 720),
    ("FKST", -180),
    ("FKT", -240),
    ("FNT", -120),
    ("GALT", -360),
    ("GAMT", -540),
    ("GET", 240),
    ("GFT", -180),
    ("GILT", 720),
    ("GIT", -540),
    ("GMT", 0),
    ("GST", -120),
    ("GYT", -240),
    ("HAEC", 120),
    ("HDT", -540),
    ("HKT", 480),
    ("HMT", 300),
    ("HOVST", 480),
    ("HOVT", 420),
    ("HST", -600),
    ("ICT", 420),
    ("IDLW", -720),
    ("IDT", 180),
    ("IOT", 360),
    ("IRDT", 270),
    ("IRKT", 480),
    ("IRST", 210),
    ("IST", 60),
    ("JST", 540),
    ("KALT", 120),
    ("KGT", 360),
    ("KOST", 660),
    ("KRAT", 420),
    ("KST", 540),
    ("LHST", 630),
    ("LHST", 660),
    ("LINT", 840),
    ("MAGT", 720),
    ("MART", -570),
    ("MAWT", 300),
    ("MDT", -360),
    ("MEST", 120),
    ("MET", 60),
    ("MHT", 720),
    ("MIST", 660),
    ("MIT", -570),
    ("MMT", 390),
    ("MSK", 180),
    ("MST", -420),
    ("MUT", 240),
    ("MVT", 300),
    ("MYT", 480),
    ("NCT", 660),
    ("NDT", -150),
    ("NFT", 660),
    ("NOVT", 420),
    ("NPT", 345),
    ("NST", -210),
    ("NT", -210),
    ("NUT", -660),
    ("NZDT", 780),
    ("NZST", 720),
    ("OMST", 360),
    ("ORAT", 300),
    ("PDT", -420),
    ("PET", -300),
    ("PETT", 720),
    ("PGT", 600),
    ("PHOT", 780),
    ("PHST", 480),
    ("PHT", 480),
    ("PKT", 300),
    ("PMDT", -120),
    ("PMST", -180),
    ("PONT", 660),
    ("PST", -480),
    ("PWT", 540),
    ("PYST", -180),
    ("PYT", -240),
    ("RET", 240),
    ("ROTT", -180),
    ("SAKT", 660),
    ("SAMT", 240),
    ("SAST", 120),
    ("SBT", 660),
    ("SCT", 240),
    ("SDT", -600),
    ("SGT", 480),
    ("SLST", 330),
    ("SRET", 660),
    ("SRT", -180),
    ("SST", 480),
    ("SYOT", 180),
    ("TAHT", -600),
    ("TFT", 300),
    ("THA", 420),
    ("TJT", 300),
    ("TKT", 780),
    ("TLT", 540),
    ("TMT", 300),
    ("TOT", 780),
    ("TRT", 180),
    ("TST", 480),
    ("TVT", 720),
    ("ULAST", 540),
    ("ULAT", 480),
    ("UTC", 0),
    ("UYST", -120),
    ("UYT", -180),
    ("UZT", 300),
    ("VET", -240),
    ("VLAT", 600),
    ("VOLT", 180),
    ("VOST", 360),
    ("VUT", 660),
    ("WAKT", 720),
    ("WAST", 120),
    ("WAT", 60),
    ("WEST", 60),
    ("WET", 0),
    ("WGST", -120),
    ("WGT", -180),
    ("WIB", 420),
    ("WIT", 540),
    ("WITA", 480),
    ("WST", 480),
    ("YAKT", 540),
    ("YEKT", 300),
];
