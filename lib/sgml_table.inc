{"AElig",U"\U000000c6"},
{"Aacgr",U"\U00000386"},
{"Aacute",U"\U000000c1"},
{"Aacute",U"\U00000041\U00000301"},
{"Abreve",U"\U00000102"},
{"Abreve",U"\U00000041\U00000306"},
{"Abring",U"\U00000041\U0000032f"},
{"Acaron",U"\U00000041\U0000030c"},
{"Acirc",U"\U000000c2"},
{"Acirc",U"\U00000041\U00000302"},
{"Acy",U"\U00000410"},
{"Adot",U"\U00000041\U00000307"},
{"Agr",U"\U00000391"},
{"Agrave",U"\U000000c0"},
{"Agrave",U"\U00000041\U00000300"},
{"Alpha",U"\U00000391"},
{"Amacr",U"\U00000100"},
{"Amacr",U"\U00000041\U00000304"},
{"Aogon",U"\U00000104"},
{"Aring",U"\U000000c5"},
{"Atilde",U"\U000000c3"},
{"Atilde",U"\U00000041\U00000303"},
{"Auml",U"\U000000c4"},
{"Auml",U"\U00000041\U00000308"},
{"Bacute",U"\U00000042\U00000301"},
{"Barwed",U"\U00002306"},
{"Bbreve",U"\U00000042\U00000306"},
{"Bbring",U"\U00000042\U0000032f"},
{"Bcaron",U"\U00000042\U0000030c"},
{"Bcirc",U"\U00000042\U00000302"},
{"Bcy",U"\U00000411"},
{"Bdot",U"\U00000042\U00000307"},
{"Beta",U"\U00000392"},
{"Bgr",U"\U00000392"},
{"Bgrave",U"\U00000042\U00000300"},
{"Bmacr",U"\U00000042\U00000304"},
{"Btilde",U"\U00000042\U00000303"},
{"Buml",U"\U00000042\U00000308"},
{"CHcy",U"\U00000427"},
{"Cacute",U"\U00000106"},
{"Cacute",U"\U00000043\U00000301"},
{"Cap",U"\U000022d2"},
{"Cbreve",U"\U00000043\U00000306"},
{"Cbring",U"\U00000043\U0000032f"},
{"Ccaron",U"\U0000010c"},
{"Ccaron",U"\U00000043\U0000030c"},
{"Ccedil",U"\U000000c7"},
{"Ccirc",U"\U00000108"},
{"Ccirc",U"\U00000043\U00000302"},
{"Cdot",U"\U0000010a"},
{"Cdot",U"\U00000043\U00000307"},
{"Cgrave",U"\U00000043\U00000300"},
{"Chi",U"\U000003a7"},
{"Cmacr",U"\U00000043\U00000304"},
{"Ctilde",U"\U00000043\U00000303"},
{"Cuml",U"\U00000043\U00000308"},
{"Cup",U"\U000022d3"},
{"DJcy",U"\U00000402"},
{"DScy",U"\U00000405"},
{"DZcy",U"\U0000040f"},
{"Dacute",U"\U00000044\U00000301"},
{"Dagger",U"\U00002021"},
{"Dbreve",U"\U00000044\U00000306"},
{"Dbring",U"\U00000044\U0000032f"},
{"Dcaron",U"\U0000010e"},
{"Dcaron",U"\U00000044\U0000030c"},
{"Dcirc",U"\U00000044\U00000302"},
{"Dcy",U"\U00000414"},
{"Ddot",U"\U00000044\U00000307"},
{"Delta",U"\U00000394"},
{"Dgr",U"\U00000394"},
{"Dgrave",U"\U00000044\U00000300"},
{"Dmacr",U"\U00000044\U00000304"},
{"Dot",U"\U000000a8"},
{"DotDot",U"\U000020dc"},
{"Dstrok",U"\U00000110"},
{"Dtilde",U"\U00000044\U00000303"},
{"Duml",U"\U00000044\U00000308"},
{"EEacgr",U"\U00000389"},
{"EEgr",U"\U00000397"},
{"ENG",U"\U0000014a"},
{"ETH",U"\U000000d0"},
{"Eacgr",U"\U00000388"},
{"Eacute",U"\U000000c9"},
{"Eacute",U"\U00000045\U00000301"},
{"Ebreve",U"\U00000045\U00000306"},
{"Ebring",U"\U00000045\U0000032f"},
{"Ecaron",U"\U0000011a"},
{"Ecaron",U"\U00000045\U0000030c"},
{"Ecirc",U"\U000000ca"},
{"Ecirc",U"\U00000045\U00000302"},
{"Ecy",U"\U0000042d"},
{"Edot",U"\U00000116"},
{"Edot",U"\U00000045\U00000307"},
{"Edotb",U"\U00001eb8"},
{"Egr",U"\U00000395"},
{"Egrave",U"\U000000c8"},
{"Egrave",U"\U00000045\U00000300"},
{"Emacr",U"\U00000112"},
{"Emacr",U"\U00000045\U00000304"},
{"Eogon",U"\U00000118"},
{"Epsilon",U"\U00000395"},
{"Eta",U"\U00000397"},
{"Etilde",U"\U00000045\U00000303"},
{"Euml",U"\U000000cb"},
{"Euml",U"\U00000045\U00000308"},
{"Facute",U"\U00000046\U00000301"},
{"Fbreve",U"\U00000046\U00000306"},
{"Fbring",U"\U00000046\U0000032f"},
{"Fcaron",U"\U00000046\U0000030c"},
{"Fcirc",U"\U00000046\U00000302"},
{"Fcy",U"\U00000424"},
{"Fdot",U"\U00000046\U00000307"},
{"Fgrave",U"\U00000046\U00000300"},
{"Fmacr",U"\U00000046\U00000304"},
{"Ftilde",U"\U00000046\U00000303"},
{"Fuml",U"\U00000046\U00000308"},
{"GJcy",U"\U00000403"},
{"Gacute",U"\U00000047\U00000301"},
{"Gamma",U"\U00000393"},
{"Gbreve",U"\U0000011e"},
{"Gbreve",U"\U00000047\U00000306"},
{"Gbring",U"\U00000047\U0000032f"},
{"Gcaron",U"\U00000047\U0000030c"},
{"Gcedil",U"\U00000122"},
{"Gcirc",U"\U0000011c"},
{"Gcirc",U"\U00000047\U00000302"},
{"Gcy",U"\U00000413"},
{"Gdot",U"\U00000120"},
{"Gdot",U"\U00000047\U00000307"},
{"Gg",U"\U000022d9"},
{"Ggr",U"\U00000393"},
{"Ggrave",U"\U00000047\U00000300"},
{"Gmacr",U"\U00000047\U00000304"},
{"Gt",U"\U0000226b"},
{"Gtilde",U"\U00000047\U00000303"},
{"Guml",U"\U00000047\U00000308"},
{"HARDcy",U"\U0000042a"},
{"Hacute",U"\U00000048\U00000301"},
{"Hbreve",U"\U00000048\U00000306"},
{"Hbring",U"\U00000048\U0000032f"},
{"Hcaron",U"\U00000048\U0000030c"},
{"Hcirc",U"\U00000124"},
{"Hcirc",U"\U00000048\U00000302"},
{"Hdot",U"\U00000048\U00000307"},
{"Hgrave",U"\U00000048\U00000300"},
{"Hmacr",U"\U00000048\U00000304"},
{"Hstrok",U"\U00000126"},
{"Htilde",U"\U00000048\U00000303"},
{"Huml",U"\U00000048\U00000308"},
{"IEcy",U"\U00000415"},
{"IJlig",U"\U00000132"},
{"IOcy",U"\U00000401"},
{"Iacgr",U"\U0000038a"},
{"Iacute",U"\U000000cd"},
{"Iacute",U"\U00000049\U00000301"},
{"Ibreve",U"\U00000049\U00000306"},
{"Ibring",U"\U00000049\U0000032f"},
{"Icaron",U"\U00000049\U0000030c"},
{"Icirc",U"\U000000ce"},
{"Icirc",U"\U00000049\U00000302"},
{"Icy",U"\U00000418"},
{"Idigr",U"\U000003aa"},
{"Idot",U"\U00000130"},
{"Idot",U"\U00000049\U00000307"},
{"Igr",U"\U00000399"},
{"Igrave",U"\U000000cc"},
{"Igrave",U"\U00000049\U00000300"},
{"Imacr",U"\U0000012a"},
{"Imacr",U"\U00000049\U00000304"},
{"Iogon",U"\U0000012e"},
{"Iota",U"\U00000399"},
{"Itilde",U"\U00000128"},
{"Itilde",U"\U00000049\U00000303"},
{"Iukcy",U"\U00000406"},
{"Iuml",U"\U000000cf"},
{"Iuml",U"\U00000049\U00000308"},
{"Jacute",U"\U0000004a\U00000301"},
{"Jbreve",U"\U0000004a\U00000306"},
{"Jbring",U"\U0000004a\U0000032f"},
{"Jcaron",U"\U0000004a\U0000030c"},
{"Jcirc",U"\U00000134"},
{"Jcirc",U"\U0000004a\U00000302"},
{"Jcy",U"\U00000419"},
{"Jdot",U"\U0000004a\U00000307"},
{"Jgrave",U"\U0000004a\U00000300"},
{"Jmacr",U"\U0000004a\U00000304"},
{"Jsercy",U"\U00000408"},
{"Jtilde",U"\U0000004a\U00000303"},
{"Jukcy",U"\U00000404"},
{"Juml",U"\U0000004a\U00000308"},
{"KHcy",U"\U00000425"},
{"KHgr",U"\U000003a7"},
{"KJcy",U"\U0000040c"},
{"Kacute",U"\U0000004b\U00000301"},
{"Kappa",U"\U0000039a"},
{"Kbreve",U"\U0000004b\U00000306"},
{"Kbring",U"\U0000004b\U0000032f"},
{"Kcaron",U"\U0000004b\U0000030c"},
{"Kcedil",U"\U00000136"},
{"Kcirc",U"\U0000004b\U00000302"},
{"Kcy",U"\U0000041a"},
{"Kdot",U"\U0000004b\U00000307"},
{"Kgr",U"\U0000039a"},
{"Kgrave",U"\U0000004b\U00000300"},
{"Kmacr",U"\U0000004b\U00000304"},
{"Ktilde",U"\U0000004b\U00000303"},
{"Kuml",U"\U0000004b\U00000308"},
{"LJcy",U"\U00000409"},
{"Lacute",U"\U00000139"},
{"Lacute",U"\U0000004c\U00000301"},
{"Lambda",U"\U0000039b"},
{"Larr",U"\U0000219e"},
{"Lbreve",U"\U0000004c\U00000306"},
{"Lbring",U"\U0000004c\U0000032f"},
{"Lcaron",U"\U0000013d"},
{"Lcaron",U"\U0000004c\U0000030c"},
{"Lcedil",U"\U0000013b"},
{"Lcirc",U"\U0000004c\U00000302"},
{"Lcy",U"\U0000041b"},
{"Ldot",U"\U0000004c\U00000307"},
{"Lgr",U"\U0000039b"},
{"Lgrave",U"\U0000004c\U00000300"},
{"Ll",U"\U000022d8"},
{"Lmacr",U"\U0000004c\U00000304"},
{"Lmidot",U"\U0000013f"},
{"Lstrok",U"\U00000141"},
{"Lt",U"\U0000226a"},
{"Ltilde",U"\U0000004c\U00000303"},
{"Luml",U"\U0000004c\U00000308"},
{"Macute",U"\U0000004d\U00000301"},
{"Mbreve",U"\U0000004d\U00000306"},
{"Mbring",U"\U0000004d\U0000032f"},
{"Mcaron",U"\U0000004d\U0000030c"},
{"Mcirc",U"\U0000004d\U00000302"},
{"Mcy",U"\U0000041c"},
{"Mdot",U"\U0000004d\U00000307"},
{"Mgr",U"\U0000039c"},
{"Mgrave",U"\U0000004d\U00000300"},
{"Mmacr",U"\U0000004d\U00000304"},
{"Mtilde",U"\U0000004d\U00000303"},
{"Mu",U"\U0000039c"},
{"Muml",U"\U0000004d\U00000308"},
{"NJcy",U"\U0000040a"},
{"Nacute",U"\U00000143"},
{"Nacute",U"\U0000004e\U00000301"},
{"Nbreve",U"\U0000004e\U00000306"},
{"Nbring",U"\U0000004e\U0000032f"},
{"Ncaron",U"\U00000147"},
{"Ncaron",U"\U0000004e\U0000030c"},
{"Ncedil",U"\U00000145"},
{"Ncirc",U"\U0000004e\U00000302"},
{"Ncy",U"\U0000041d"},
{"Ndot",U"\U0000004e\U00000307"},
{"Ngr",U"\U0000039d"},
{"Ngrave",U"\U0000004e\U00000300"},
{"Nmacr",U"\U0000004e\U00000304"},
{"Ntilde",U"\U000000d1"},
{"Ntilde",U"\U0000004e\U00000303"},
{"Nu",U"\U0000039d"},
{"Numl",U"\U0000004e\U00000308"},
{"OElig",U"\U00000152"},
{"OHacgr",U"\U0000038f"},
{"OHgr",U"\U000003a9"},
{"Oacgr",U"\U0000038c"},
{"Oacute",U"\U000000d3"},
{"Oacute",U"\U0000004f\U00000301"},
{"Obreve",U"\U0000004f\U00000306"},
{"Obring",U"\U0000004f\U0000032f"},
{"Ocaron",U"\U000001d1"},
{"Ocaron",U"\U0000004f\U0000030c"},
{"Ocirc",U"\U000000d4"},
{"Ocirc",U"\U0000004f\U00000302"},
{"Ocy",U"\U0000041e"},
{"Odblac",U"\U00000150"},
{"Odot",U"\U0000004f\U00000307"},
{"Odotb",U"\U00001ecc"},
{"Ogr",U"\U0000039f"},
{"Ograve",U"\U000000d2"},
{"Ograve",U"\U0000004f\U00000300"},
{"Omacr",U"\U0000014c"},
{"Omacr",U"\U0000004f\U00000304"},
{"Omega",U"\U000003a9"},
{"Omicron",U"\U0000039f"},
{"Oslash",U"\U000000d8"},
{"Otilde",U"\U000000d5"},
{"Otilde",U"\U0000004f\U00000303"},
{"Ouml",U"\U000000d6"},
{"Ouml",U"\U0000004f\U00000308"},
{"PHgr",U"\U000003a6"},
{"PSgr",U"\U000003a8"},
{"Pacute",U"\U00000050\U00000301"},
{"Pbreve",U"\U00000050\U00000306"},
{"Pbring",U"\U00000050\U0000032f"},
{"Pcaron",U"\U00000050\U0000030c"},
{"Pcirc",U"\U00000050\U00000302"},
{"Pcy",U"\U0000041f"},
{"Pdot",U"\U00000050\U00000307"},
{"Pgr",U"\U000003a0"},
{"Pgrave",U"\U00000050\U00000300"},
{"Phi",U"\U000003a6"},
{"Pi",U"\U000003a0"},
{"Pmacr",U"\U00000050\U00000304"},
{"Prime",U"\U00002033"},
{"Psi",U"\U000003a8"},
{"Ptilde",U"\U00000050\U00000303"},
{"Puml",U"\U00000050\U00000308"},
{"Qacute",U"\U00000051\U00000301"},
{"Qbreve",U"\U00000051\U00000306"},
{"Qbring",U"\U00000051\U0000032f"},
{"Qcaron",U"\U00000051\U0000030c"},
{"Qcirc",U"\U00000051\U00000302"},
{"Qdot",U"\U00000051\U00000307"},
{"Qgrave",U"\U00000051\U00000300"},
{"Qmacr",U"\U00000051\U00000304"},
{"Qtilde",U"\U00000051\U00000303"},
{"Quml",U"\U00000051\U00000308"},
{"Racute",U"\U00000154"},
{"Racute",U"\U00000052\U00000301"},
{"Rarr",U"\U000021a0"},
{"Rbreve",U"\U00000052\U00000306"},
{"Rbring",U"\U00000052\U0000032f"},
{"Rcaron",U"\U00000158"},
{"Rcaron",U"\U00000052\U0000030c"},
{"Rcedil",U"\U00000156"},
{"Rcirc",U"\U00000052\U00000302"},
{"Rcy",U"\U00000420"},
{"Rdot",U"\U00000052\U00000307"},
{"Rgr",U"\U000003a1"},
{"Rgrave",U"\U00000052\U00000300"},
{"Rho",U"\U000003a1"},
{"Rmacr",U"\U00000052\U00000304"},
{"Rtilde",U"\U00000052\U00000303"},
{"Ruml",U"\U00000052\U00000308"},
{"SHCHcy",U"\U00000429"},
{"SHcy",U"\U00000428"},
{"SOFTcy",U"\U0000042c"},
{"Sacute",U"\U0000015a"},
{"Sacute",U"\U00000053\U00000301"},
{"Sbreve",U"\U00000053\U00000306"},
{"Sbring",U"\U00000053\U0000032f"},
{"Scaron",U"\U00000160"},
{"Scaron",U"\U00000053\U0000030c"},
{"Scedil",U"\U0000015e"},
{"Scirc",U"\U0000015c"},
{"Scirc",U"\U00000053\U00000302"},
{"Scy",U"\U00000421"},
{"Sdot",U"\U00000053\U00000307"},
{"Sgr",U"\U000003a3"},
{"Sgrave",U"\U00000053\U00000300"},
{"Sigma",U"\U000003a3"},
{"Smacr",U"\U00000053\U00000304"},
{"Stilde",U"\U00000053\U00000303"},
{"Sub",U"\U000022d0"},
{"Suml",U"\U00000053\U00000308"},
{"Sup",U"\U000022d1"},
{"THORN",U"\U000000de"},
{"THgr",U"\U00000398"},
{"TSHcy",U"\U0000040b"},
{"TScy",U"\U00000426"},
{"Tacute",U"\U00000054\U00000301"},
{"Tau",U"\U000003a4"},
{"Tbreve",U"\U00000054\U00000306"},
{"Tbring",U"\U00000054\U0000032f"},
{"Tcaron",U"\U00000164"},
{"Tcaron",U"\U00000054\U0000030c"},
{"Tcedil",U"\U00000162"},
{"Tcirc",U"\U00000054\U00000302"},
{"Tcy",U"\U00000422"},
{"Tdot",U"\U00000054\U00000307"},
{"Tgr",U"\U000003a4"},
{"Tgrave",U"\U00000054\U00000300"},
{"Theta",U"\U00000398"},
{"Tmacr",U"\U00000054\U00000304"},
{"Tstrok",U"\U00000166"},
{"Ttilde",U"\U00000054\U00000303"},
{"Tuml",U"\U00000054\U00000308"},
{"Uacgr",U"\U0000038e"},
{"Uacute",U"\U000000da"},
{"Uacute",U"\U00000055\U00000301"},
{"Ubrcy",U"\U0000040e"},
{"Ubreve",U"\U0000016c"},
{"Ubreve",U"\U00000055\U00000306"},
{"Ubring",U"\U00000055\U0000032f"},
{"Ucaron",U"\U00000055\U0000030c"},
{"Ucirc",U"\U000000db"},
{"Ucirc",U"\U00000055\U00000302"},
{"Ucy",U"\U00000423"},
{"Udblac",U"\U00000170"},
{"Udigr",U"\U000003ab"},
{"Udot",U"\U00000055\U00000307"},
{"Ugr",U"\U000003a5"},
{"Ugrave",U"\U000000d9"},
{"Ugrave",U"\U00000055\U00000300"},
{"Umacr",U"\U0000016a"},
{"Umacr",U"\U00000055\U00000304"},
{"Uogon",U"\U00000172"},
{"Upsi",U"\U000003a5"},
{"Upsilon",U"\U000003a5"},
{"Uring",U"\U0000016e"},
{"Utilde",U"\U00000168"},
{"Utilde",U"\U00000055\U00000303"},
{"Uuml",U"\U000000dc"},
{"Uuml",U"\U00000055\U00000308"},
{"Vacute",U"\U00000056\U00000301"},
{"Vbreve",U"\U00000056\U00000306"},
{"Vbring",U"\U00000056\U0000032f"},
{"Vcaron",U"\U00000056\U0000030c"},
{"Vcirc",U"\U00000056\U00000302"},
{"Vcy",U"\U00000412"},
{"Vdash",U"\U000022a9"},
{"Vdot",U"\U00000056\U00000307"},
{"Verbar",U"\U00002016"},
{"Vgrave",U"\U00000056\U00000300"},
{"Vmacr",U"\U00000056\U00000304"},
{"Vtilde",U"\U00000056\U00000303"},
{"Vuml",U"\U00000056\U00000308"},
{"Vvdash",U"\U000022aa"},
{"Wacute",U"\U00000057\U00000301"},
{"Wbreve",U"\U00000057\U00000306"},
{"Wbring",U"\U00000057\U0000032f"},
{"Wcaron",U"\U00000057\U0000030c"},
{"Wcirc",U"\U00000174"},
{"Wcirc",U"\U00000057\U00000302"},
{"Wdot",U"\U00000057\U00000307"},
{"Wgrave",U"\U00000057\U00000300"},
{"Wmacr",U"\U00000057\U00000304"},
{"Wtilde",U"\U00000057\U00000303"},
{"Wuml",U"\U00000057\U00000308"},
{"Xacute",U"\U00000058\U00000301"},
{"Xbreve",U"\U00000058\U00000306"},
{"Xbring",U"\U00000058\U0000032f"},
{"Xcaron",U"\U00000058\U0000030c"},
{"Xcirc",U"\U00000058\U00000302"},
{"Xdot",U"\U00000058\U00000307"},
{"Xgr",U"\U0000039e"},
{"Xgrave",U"\U00000058\U00000300"},
{"Xi",U"\U0000039e"},
{"Xmacr",U"\U00000058\U00000304"},
{"Xtilde",U"\U00000058\U00000303"},
{"Xuml",U"\U00000058\U00000308"},
{"YAcy",U"\U0000042f"},
{"YIcy",U"\U00000407"},
{"YUcy",U"\U0000042e"},
{"Yacute",U"\U000000dd"},
{"Yacute",U"\U00000059\U00000301"},
{"Ybreve",U"\U00000059\U00000306"},
{"Ybring",U"\U00000059\U0000032f"},
{"Ycaron",U"\U00000059\U0000030c"},
{"Ycirc",U"\U00000176"},
{"Ycirc",U"\U00000059\U00000302"},
{"Ycy",U"\U0000042b"},
{"Ydot",U"\U00000059\U00000307"},
{"Ygrave",U"\U00000059\U00000300"},
{"Ymacr",U"\U00000059\U00000304"},
{"Ytilde",U"\U00000059\U00000303"},
{"Yuml",U"\U00000178"},
{"Yuml",U"\U00000059\U00000308"},
{"ZHcy",U"\U00000416"},
{"Zacute",U"\U00000179"},
{"Zacute",U"\U0000005a\U00000301"},
{"Zbreve",U"\U0000005a\U00000306"},
{"Zbring",U"\U0000005a\U0000032f"},
{"Zcaron",U"\U0000017d"},
{"Zcaron",U"\U0000005a\U0000030c"},
{"Zcirc",U"\U0000005a\U00000302"},
{"Zcy",U"\U00000417"},
{"Zdot",U"\U0000017b"},
{"Zdot",U"\U0000005a\U00000307"},
{"Zeta",U"\U00000396"},
{"Zgr",U"\U00000396"},
{"Zgrave",U"\U0000005a\U00000300"},
{"Zmacr",U"\U0000005a\U00000304"},
{"Ztilde",U"\U0000005a\U00000303"},
{"Zuml",U"\U0000005a\U00000308"},
{"aacgr",U"\U000003ac"},
{"aacute",U"\U000000e1"},
{"aacute",U"\U00000061\U00000301"},
{"abreve",U"\U00000103"},
{"abreve",U"\U00000061\U00000306"},
{"abring",U"\U00000061\U0000032f"},
{"acaron",U"\U00000061\U0000030c"},
{"acirc",U"\U000000e2"},
{"acirc",U"\U00000061\U00000302"},
{"acute",U"\U000000b4"},
{"acy",U"\U00000430"},
{"adot",U"\U00000061\U00000307"},
{"aelig",U"\U000000e6"},
{"agr",U"\U000003b1"},
{"agrave",U"\U000000e0"},
{"agrave",U"\U00000061\U00000300"},
{"alefsym",U"\U00002135"},
{"aleph",U"\U00002135"},
{"alpha",U"\U000003b1"},
{"amacr",U"\U00000101"},
{"amacr",U"\U00000061\U00000304"},
{"amalg",U"\U00002210"},
{"amp",U"\U00000026"},
{"and",U"\U00002227"},
{"ang",U"\U00002220"},
{"ang90",U"\U0000221f"},
{"angmsd",U"\U00002221"},
{"angsph",U"\U00002222"},
{"angst",U"\U0000212b"},
{"aogon",U"\U00000105"},
{"ap",U"\U00002248"},
{"ape",U"\U0000224a"},
{"apos",U"\U00000027"},
{"apos",U"\U000002bc"},
{"aring",U"\U000000e5"},
{"ast",U"\U0000002a"},
{"asymp",U"\U00002248"},
{"atilde",U"\U000000e3"},
{"atilde",U"\U00000061\U00000303"},
{"auml",U"\U000000e4"},
{"auml",U"\U00000061\U00000308"},
{"b.Delta",U"\U00000394"},
{"b.Gamma",U"\U00000393"},
{"b.Lambda",U"\U0000039b"},
{"b.Omega",U"\U000003a9"},
{"b.Phi",U"\U000003a6"},
{"b.Pi",U"\U000003a0"},
{"b.Psi",U"\U000003a8"},
{"b.Sigma",U"\U000003a3"},
{"b.Theta",U"\U00000398"},
{"b.Upsi",U"\U000003a5"},
{"b.Xi",U"\U0000039e"},
{"b.alpha",U"\U000003b1"},
{"b.beta",U"\U000003b2"},
{"b.chi",U"\U000003c7"},
{"b.delta",U"\U000003b4"},
{"b.epsi",U"\U000003b5"},
{"b.epsis",U"\U000003b5"},
{"b.epsiv",U"\U000003b5"},
{"b.eta",U"\U000003b7"},
{"b.gamma",U"\U000003b3"},
{"b.gammad",U"\U000003dc"},
{"b.iota",U"\U000003b9"},
{"b.kappa",U"\U000003ba"},
{"b.kappav",U"\U000003f0"},
{"b.lambda",U"\U000003bb"},
{"b.mu",U"\U000003bc"},
{"b.nu",U"\U000003bd"},
{"b.omega",U"\U000003ce"},
{"b.phis",U"\U000003c6"},
{"b.phiv",U"\U000003d5"},
{"b.pi",U"\U000003c0"},
{"b.piv",U"\U000003d6"},
{"b.psi",U"\U000003c8"},
{"b.rho",U"\U000003c1"},
{"b.rhov",U"\U000003f1"},
{"b.sigma",U"\U000003c3"},
{"b.sigmav",U"\U000003c2"},
{"b.tau",U"\U000003c4"},
{"b.thetas",U"\U000003b8"},
{"b.thetav",U"\U000003d1"},
{"b.upsi",U"\U000003c5"},
{"b.xi",U"\U000003be"},
{"b.zeta",U"\U000003b6"},
{"bacute",U"\U00000062\U00000301"},
{"barwed",U"\U000022bc"},
{"bbreve",U"\U00000062\U00000306"},
{"bbring",U"\U00000062\U0000032f"},
{"bcaron",U"\U00000062\U0000030c"},
{"bcirc",U"\U00000062\U00000302"},
{"bcong",U"\U0000224c"},
{"bcy",U"\U00000431"},
{"bdot",U"\U00000062\U00000307"},
{"bdquo",U"\U0000201e"},
{"becaus",U"\U00002235"},
{"bepsi",U"\U0000220d"},
{"bernou",U"\U0000212c"},
{"beta",U"\U000003b2"},
{"beth",U"\U00002136"},
{"bgr",U"\U000003b2"},
{"bgrave",U"\U00000062\U00000300"},
{"blank",U"\U00002423"},
{"blk12",U"\U00002592"},
{"blk14",U"\U00002591"},
{"blk34",U"\U00002593"},
{"block",U"\U00002588"},
{"bmacr",U"\U00000062\U00000304"},
{"bottom",U"\U000022a5"},
{"bowtie",U"\U000022c8"},
{"boxDL",U"\U00002557"},
{"boxDR",U"\U00002554"},
{"boxDl",U"\U00002556"},
{"boxDr",U"\U00002553"},
{"boxH",U"\U00002550"},
{"boxHD",U"\U00002566"},
{"boxHU",U"\U00002569"},
{"boxHd",U"\U00002564"},
{"boxHu",U"\U00002567"},
{"boxUL",U"\U0000255d"},
{"boxUR",U"\U0000255a"},
{"boxUl",U"\U0000255c"},
{"boxUr",U"\U00002559"},
{"boxV",U"\U00002551"},
{"boxVH",U"\U0000256c"},
{"boxVL",U"\U00002563"},
{"boxVR",U"\U00002560"},
{"boxVh",U"\U0000256b"},
{"boxVl",U"\U00002562"},
{"boxVr",U"\U0000255f"},
{"boxdL",U"\U00002555"},
{"boxdR",U"\U00002552"},
{"boxdl",U"\U00002510"},
{"boxdr",U"\U0000250c"},
{"boxh",U"\U00002500"},
{"boxhD",U"\U00002565"},
{"boxhU",U"\U00002568"},
{"boxhd",U"\U0000252c"},
{"boxhu",U"\U00002534"},
{"boxuL",U"\U0000255b"},
{"boxuR",U"\U00002558"},
{"boxul",U"\U00002518"},
{"boxur",U"\U00002514"},
{"boxv",U"\U00002502"},
{"boxvH",U"\U0000256a"},
{"boxvL",U"\U00002561"},
{"boxvR",U"\U0000255e"},
{"boxvh",U"\U0000253c"},
{"boxvl",U"\U00002524"},
{"boxvr",U"\U0000251c"},
{"bprime",U"\U00002035"},
{"breve",U"\U000002d8"},
{"brvbar",U"\U000000a6"},
{"bsim",U"\U0000223d"},
{"bsime",U"\U000022cd"},
{"bsol",U"\U0000005c"},
{"btilde",U"\U00000062\U00000303"},
{"bull",U"\U00002022"},
{"buml",U"\U00000062\U00000308"},
{"bump",U"\U0000224e"},
{"bumpe",U"\U0000224f"},
{"cacute",U"\U00000107"},
{"cacute",U"\U00000063\U00000301"},
{"cap",U"\U00002229"},
{"caret",U"\U00002041"},
{"caron",U"\U000002c7"},
{"cbreve",U"\U00000063\U00000306"},
{"cbring",U"\U00000063\U0000032f"},
{"ccaron",U"\U0000010d"},
{"ccaron",U"\U00000063\U0000030c"},
{"ccedil",U"\U000000e7"},
{"ccirc",U"\U00000109"},
{"ccirc",U"\U00000063\U00000302"},
{"cdot",U"\U0000010b"},
{"cdot",U"\U00000063\U00000307"},
{"cedil",U"\U000000b8"},
{"cent",U"\U000000a2"},
{"cgrave",U"\U00000063\U00000300"},
{"chcy",U"\U00000447"},
{"check",U"\U00002713"},
{"chi",U"\U000003c7"},
{"cir",U"\U000025cb"},
{"circ",U"\U000002c6"},
{"circlef",U"\U000025cf"},
{"circlefb",U"\U000025d2"},
{"circlefl",U"\U000025d0"},
{"circlefr",U"\U000025d1"},
{"circleft",U"\U000025d3"},
{"cire",U"\U00002257"},
{"clubs",U"\U00002663"},
{"cmacr",U"\U00000063\U00000304"},
{"colon",U"\U0000003a"},
{"colone",U"\U00002254"},
{"comma",U"\U0000002c"},
{"commat",U"\U00000040"},
{"comp",U"\U00002201"},
{"compfn",U"\U00002218"},
{"cong",U"\U00002245"},
{"conint",U"\U0000222e"},
{"coprod",U"\U00002210"},
{"copy",U"\U000000a9"},
{"copysr",U"\U00002117"},
{"crarr",U"\U000021b5"},
{"cross",U"\U00002717"},
{"ctilde",U"\U00000063\U00000303"},
{"cuepr",U"\U000022de"},
{"cuesc",U"\U000022df"},
{"cularr",U"\U000021b6"},
{"cuml",U"\U00000063\U00000308"},
{"cup",U"\U0000222a"},
{"cupre",U"\U0000227c"},
{"curarr",U"\U000021b7"},
{"curren",U"\U000000a4"},
{"cuvee",U"\U000022ce"},
{"cuwed",U"\U000022cf"},
{"dArr",U"\U000021d3"},
{"dacute",U"\U00000064\U00000301"},
{"dagger",U"\U00002020"},
{"daleth",U"\U00002138"},
{"darr",U"\U00002193"},
{"darr2",U"\U000021ca"},
{"dash",U"\U00002010"},
{"dashv",U"\U000022a3"},
{"dblac",U"\U000002dd"},
{"dbreve",U"\U00000064\U00000306"},
{"dbring",U"\U00000064\U0000032f"},
{"dcaron",U"\U0000010f"},
{"dcaron",U"\U00000064\U0000030c"},
{"dcirc",U"\U00000064\U00000302"},
{"dcy",U"\U00000434"},
{"ddot",U"\U00000064\U00000307"},
{"deg",U"\U000000b0"},
{"delta",U"\U000003b4"},
{"dgr",U"\U000003b4"},
{"dgrave",U"\U00000064\U00000300"},
{"dharl",U"\U000021c3"},
{"dharr",U"\U000021c2"},
{"diam",U"\U000022c4"},
{"diamondf",U"\U000025c6"},
{"diams",U"\U00002666"},
{"die",U"\U000000a8"},
{"divide",U"\U000000f7"},
{"divonx",U"\U000022c7"},
{"djcy",U"\U00000452"},
{"dlarr",U"\U00002199"},
{"dlcorn",U"\U0000231e"},
{"dlcrop",U"\U0000230d"},
{"dmacr",U"\U00000064\U00000304"},
{"dollar",U"\U00000024"},
{"dot",U"\U000002d9"},
{"drarr",U"\U00002198"},
{"drcorn",U"\U0000231f"},
{"drcrop",U"\U0000230c"},
{"dscy",U"\U00000455"},
{"dstrok",U"\U00000111"},
{"dtilde",U"\U00000064\U00000303"},
{"dtri",U"\U000025bf"},
{"dtrif",U"\U000025be"},
{"duml",U"\U00000064\U00000308"},
{"dzcy",U"\U0000045f"},
{"eDot",U"\U00002251"},
{"eacgr",U"\U000003ad"},
{"eacute",U"\U000000e9"},
{"eacute",U"\U00000065\U00000301"},
{"ebreve",U"\U00000065\U00000306"},
{"ebring",U"\U00000065\U0000032f"},
{"ecaron",U"\U0000011b"},
{"ecaron",U"\U00000065\U0000030c"},
{"ecir",U"\U00002256"},
{"ecirc",U"\U000000ea"},
{"ecirc",U"\U00000065\U00000302"},
{"ecolon",U"\U00002255"},
{"ecy",U"\U0000044d"},
{"edot",U"\U00000117"},
{"edot",U"\U00000065\U00000307"},
{"edotb",U"\U00001eb9"},
{"eeacgr",U"\U000003ae"},
{"eegr",U"\U000003b7"},
{"efDot",U"\U00002252"},
{"egr",U"\U000003b5"},
{"egrave",U"\U000000e8"},
{"egrave",U"\U00000065\U00000300"},
{"egs",U"\U000022dd"},
{"ell",U"\U00002113"},
{"els",U"\U000022dc"},
{"emacr",U"\U00000113"},
{"emacr",U"\U00000065\U00000304"},
{"empty",U"\U00002205"},
{"emsp",U"\U00002003"},
{"emsp13",U"\U00002004"},
{"emsp14",U"\U00002005"},
{"eng",U"\U0000014b"},
{"ensp",U"\U00002002"},
{"eogon",U"\U00000119"},
{"epsi",U"\U000003b5"},
{"epsilon",U"\U000003b5"},
{"epsis",U"\U0000220a"},
{"equals",U"\U0000003d"},
{"equiv",U"\U00002261"},
{"erDot",U"\U00002253"},
{"esdot",U"\U00002250"},
{"eta",U"\U000003b7"},
{"eth",U"\U000000f0"},
{"etilde",U"\U00000065\U00000303"},
{"euml",U"\U000000eb"},
{"euml",U"\U00000065\U00000308"},
{"euro",U"\U000020ac"},
{"excl",U"\U00000021"},
{"exist",U"\U00002203"},
{"facute",U"\U00000066\U00000301"},
{"fbreve",U"\U00000066\U00000306"},
{"fbring",U"\U00000066\U0000032f"},
{"fcaron",U"\U00000066\U0000030c"},
{"fcirc",U"\U00000066\U00000302"},
{"fcy",U"\U00000444"},
{"fdot",U"\U00000066\U00000307"},
{"female",U"\U00002640"},
{"ffilig",U"\U0000fb03"},
{"fflig",U"\U0000fb00"},
{"ffllig",U"\U0000fb04"},
{"fgrave",U"\U00000066\U00000300"},
{"filig",U"\U0000fb01"},
{"flat",U"\U0000266d"},
{"fllig",U"\U0000fb02"},
{"fmacr",U"\U00000066\U00000304"},
{"fnof",U"\U00000192"},
{"forall",U"\U00002200"},
{"fork",U"\U000022d4"},
{"frac12",U"\U000000bd"},
{"frac13",U"\U00002153"},
{"frac14",U"\U000000bc"},
{"frac15",U"\U00002155"},
{"frac16",U"\U00002159"},
{"frac18",U"\U0000215b"},
{"frac23",U"\U00002154"},
{"frac25",U"\U00002156"},
{"frac34",U"\U000000be"},
{"frac35",U"\U00002157"},
{"frac38",U"\U0000215c"},
{"frac45",U"\U00002158"},
{"frac56",U"\U0000215a"},
{"frac58",U"\U0000215d"},
{"frac78",U"\U0000215e"},
{"frasl",U"\U00002044"},
{"frown",U"\U00002322"},
{"ftilde",U"\U00000066\U00000303"},
{"fuml",U"\U00000066\U00000308"},
{"gE",U"\U00002267"},
{"gacute",U"\U000001f5"},
{"gacute",U"\U00000067\U00000301"},
{"gamma",U"\U000003b3"},
{"gammad",U"\U000003dc"},
{"gbreve",U"\U0000011f"},
{"gbreve",U"\U00000067\U00000306"},
{"gbring",U"\U00000067\U0000032f"},
{"gcaron",U"\U00000067\U0000030c"},
{"gcedil",U"\U00000123"},
{"gcirc",U"\U0000011d"},
{"gcirc",U"\U00000067\U00000302"},
{"gcy",U"\U00000433"},
{"gdot",U"\U00000121"},
{"gdot",U"\U00000067\U00000307"},
{"ge",U"\U00002265"},
{"gel",U"\U000022db"},
{"ges",U"\U00002265"},
{"ggr",U"\U000003b3"},
{"ggrave",U"\U00000067\U00000300"},
{"gimel",U"\U00002137"},
{"gjcy",U"\U00000453"},
{"gl",U"\U00002277"},
{"gmacr",U"\U00000067\U00000304"},
{"gnE",U"\U00002269"},
{"gne",U"\U00002269"},
{"gnsim",U"\U000022e7"},
{"grave",U"\U00000060"},
{"gsdot",U"\U000022d7"},
{"gsim",U"\U00002273"},
{"gt",U"\U0000003e"},
{"gtilde",U"\U00000067\U00000303"},
{"guml",U"\U00000067\U00000308"},
{"gvnE",U"\U00002269"},
{"hArr",U"\U000021d4"},
{"hacute",U"\U00000068\U00000301"},
{"hairsp",U"\U0000200a"},
{"half",U"\U000000bd"},
{"hamilt",U"\U0000210b"},
{"hardcy",U"\U0000044a"},
{"harr",U"\U00002194"},
{"harrw",U"\U000021ad"},
{"hbreve",U"\U00000068\U00000306"},
{"hbring",U"\U00000068\U0000032f"},
{"hcaron",U"\U00000068\U0000030c"},
{"hcirc",U"\U00000125"},
{"hcirc",U"\U00000068\U00000302"},
{"hdot",U"\U00000068\U00000307"},
{"hearts",U"\U00002665"},
{"hellip",U"\U00002026"},
{"hgrave",U"\U00000068\U00000300"},
{"hmacr",U"\U00000068\U00000304"},
{"horbar",U"\U00002015"},
{"hstrok",U"\U00000127"},
{"htilde",U"\U00000068\U00000303"},
{"huml",U"\U00000068\U00000308"},
{"hybull",U"\U00002043"},
{"hyphen",U"\U0000002d"},
{"iacgr",U"\U000003af"},
{"iacute",U"\U000000ed"},
{"iacute",U"\U00000069\U00000301"},
{"ibreve",U"\U00000069\U00000306"},
{"ibring",U"\U00000069\U0000032f"},
{"icaron",U"\U00000069\U0000030c"},
{"icirc",U"\U000000ee"},
{"icirc",U"\U00000069\U00000302"},
{"icy",U"\U00000438"},
{"idiagr",U"\U00000390"},
{"idigr",U"\U000003ca"},
{"idot",U"\U00000069\U00000307"},
{"iecy",U"\U00000435"},
{"iexcl",U"\U000000a1"},
{"iff",U"\U000021d4"},
{"igr",U"\U000003b9"},
{"igrave",U"\U000000ec"},
{"igrave",U"\U00000069\U00000300"},
{"ijlig",U"\U00000133"},
{"imacr",U"\U0000012b"},
{"imacr",U"\U00000069\U00000304"},
{"image",U"\U00002111"},
{"incare",U"\U00002105"},
{"infin",U"\U0000221e"},
{"inodot",U"\U00000131"},
{"inodot",U"\U00000131"},
{"int",U"\U0000222b"},
{"intcal",U"\U000022ba"},
{"iocy",U"\U00000451"},
{"iogon",U"\U0000012f"},
{"iota",U"\U000003b9"},
{"iquest",U"\U000000bf"},
{"isin",U"\U00002208"},
{"itilde",U"\U00000129"},
{"itilde",U"\U00000069\U00000303"},
{"iukcy",U"\U00000456"},
{"iuml",U"\U000000ef"},
{"iuml",U"\U00000069\U00000308"},
{"jacute",U"\U0000006a\U00000301"},
{"jbreve",U"\U0000006a\U00000306"},
{"jbring",U"\U0000006a\U0000032f"},
{"jcaron",U"\U0000006a\U0000030c"},
{"jcirc",U"\U00000135"},
{"jcirc",U"\U0000006a\U00000302"},
{"jcy",U"\U00000439"},
{"jdot",U"\U0000006a\U00000307"},
{"jgrave",U"\U0000006a\U00000300"},
{"jmacr",U"\U0000006a\U00000304"},
{"jsercy",U"\U00000458"},
{"jtilde",U"\U0000006a\U00000303"},
{"jukcy",U"\U00000454"},
{"juml",U"\U0000006a\U00000308"},
{"kacute",U"\U0000006b\U00000301"},
{"kappa",U"\U000003ba"},
{"kappav",U"\U000003f0"},
{"kbreve",U"\U0000006b\U00000306"},
{"kbring",U"\U0000006b\U0000032f"},
{"kcaron",U"\U0000006b\U0000030c"},
{"kcedil",U"\U00000137"},
{"kcirc",U"\U0000006b\U00000302"},
{"kcy",U"\U0000043a"},
{"kdot",U"\U0000006b\U00000307"},
{"kgr",U"\U000003ba"},
{"kgrave",U"\U0000006b\U00000300"},
{"kgreen",U"\U00000138"},
{"khcy",U"\U00000445"},
{"khgr",U"\U000003c7"},
{"kjcy",U"\U0000045c"},
{"kmacr",U"\U0000006b\U00000304"},
{"ktilde",U"\U0000006b\U00000303"},
{"kuml",U"\U0000006b\U00000308"},
{"lAarr",U"\U000021da"},
{"lArr",U"\U000021d0"},
{"lE",U"\U00002266"},
{"lacute",U"\U0000013a"},
{"lacute",U"\U0000006c\U00000301"},
{"lagran",U"\U00002112"},
{"lambda",U"\U000003bb"},
{"lang",U"\U00002329"},
{"laquo",U"\U000000ab"},
{"larr",U"\U00002190"},
{"larr2",U"\U000021c7"},
{"larrhk",U"\U000021a9"},
{"larrlp",U"\U000021ab"},
{"larrtl",U"\U000021a2"},
{"lbreve",U"\U0000006c\U00000306"},
{"lbring",U"\U0000006c\U0000032f"},
{"lcaron",U"\U0000013e"},
{"lcaron",U"\U0000006c\U0000030c"},
{"lcedil",U"\U0000013c"},
{"lceil",U"\U00002308"},
{"lcirc",U"\U0000006c\U00000302"},
{"lcub",U"\U0000007b"},
{"lcy",U"\U0000043b"},
{"ldot",U"\U000022d6"},
{"ldot",U"\U0000006c\U00000307"},
{"ldquo",U"\U0000201c"},
{"ldquor",U"\U0000201e"},
{"le",U"\U00002264"},
{"leg",U"\U000022da"},
{"les",U"\U00002264"},
{"lfloor",U"\U0000230a"},
{"lg",U"\U00002276"},
{"lgr",U"\U000003bb"},
{"lgrave",U"\U0000006c\U00000300"},
{"lhard",U"\U000021bd"},
{"lharu",U"\U000021bc"},
{"lhblk",U"\U00002584"},
{"ljcy",U"\U00000459"},
{"lmacr",U"\U0000006c\U00000304"},
{"lmidot",U"\U00000140"},
{"lnE",U"\U00002268"},
{"lne",U"\U00002268"},
{"lnsim",U"\U000022e6"},
{"lowast",U"\U00002217"},
{"lowbar",U"\U0000005f"},
{"loz",U"\U000025ca"},
{"loz",U"\U00002727"},
{"lozf",U"\U00002726"},
{"lpar",U"\U00000028"},
{"lrarr2",U"\U000021c6"},
{"lrhar2",U"\U000021cb"},
{"lrm",U"\U0000200e"},
{"lsaquo",U"\U00002039"},
{"lsh",U"\U000021b0"},
{"lsim",U"\U00002272"},
{"lsqb",U"\U0000005b"},
{"lsquo",U"\U00002018"},
{"lsquor",U"\U0000201a"},
{"lstrok",U"\U00000142"},
{"lt",U"\U0000003c"},
{"lthree",U"\U000022cb"},
{"ltilde",U"\U0000006c\U00000303"},
{"ltimes",U"\U000022c9"},
{"ltri",U"\U000025c3"},
{"ltrie",U"\U000022b4"},
{"ltrif",U"\U000025c2"},
{"luml",U"\U0000006c\U00000308"},
{"lvnE",U"\U00002268"},
{"macr",U"\U000000af"},
{"macute",U"\U0000006d\U00000301"},
{"male",U"\U00002642"},
{"malt",U"\U00002720"},
{"map",U"\U000021a6"},
{"marker",U"\U000025ae"},
{"mbreve",U"\U0000006d\U00000306"},
{"mbring",U"\U0000006d\U0000032f"},
{"mcaron",U"\U0000006d\U0000030c"},
{"mcirc",U"\U0000006d\U00000302"},
{"mcy",U"\U0000043c"},
{"mdash",U"\U00002014"},
{"mdot",U"\U0000006d\U00000307"},
{"mgr",U"\U000003bc"},
{"mgrave",U"\U0000006d\U00000300"},
{"micro",U"\U000000b5"},
{"mid",U"\U00002223"},
{"middot",U"\U000000b7"},
{"minus",U"\U00002212"},
{"minusb",U"\U0000229f"},
{"mldr",U"\U00002026"},
{"mmacr",U"\U0000006d\U00000304"},
{"mnplus",U"\U00002213"},
{"models",U"\U000022a7"},
{"mtilde",U"\U0000006d\U00000303"},
{"mu",U"\U000003bc"},
{"mumap",U"\U000022b8"},
{"muml",U"\U0000006d\U00000308"},
{"nVDash",U"\U000022af"},
{"nVdash",U"\U000022ae"},
{"nabla",U"\U00002207"},
{"nacute",U"\U00000144"},
{"nacute",U"\U0000006e\U00000301"},
{"nap",U"\U00002249"},
{"napos",U"\U00000149"},
{"natur",U"\U0000266e"},
{"nbreve",U"\U0000006e\U00000306"},
{"nbring",U"\U0000006e\U0000032f"},
{"nbsp",U"\U000000a0"},
{"ncaron",U"\U00000148"},
{"ncaron",U"\U0000006e\U0000030c"},
{"ncedil",U"\U00000146"},
{"ncirc",U"\U0000006e\U00000302"},
{"ncong",U"\U00002247"},
{"ncy",U"\U0000043d"},
{"ndash",U"\U00002013"},
{"ndot",U"\U0000006e\U00000307"},
{"ne",U"\U00002260"},
{"nearr",U"\U00002197"},
{"nequiv",U"\U00002262"},
{"nexist",U"\U00002204"},
{"nge",U"\U00002271"},
{"nges",U"\U00002271"},
{"ngr",U"\U000003bd"},
{"ngrave",U"\U0000006e\U00000300"},
{"ngt",U"\U0000226f"},
{"nhArr",U"\U000021ce"},
{"nharr",U"\U000021ae"},
{"ni",U"\U0000220b"},
{"njcy",U"\U0000045a"},
{"nlArr",U"\U000021cd"},
{"nlarr",U"\U0000219a"},
{"nldr",U"\U00002025"},
{"nle",U"\U00002270"},
{"nles",U"\U00002270"},
{"nlt",U"\U0000226e"},
{"nltri",U"\U000022ea"},
{"nltrie",U"\U000022ec"},
{"nmacr",U"\U0000006e\U00000304"},
{"nmid",U"\U00002224"},
{"not",U"\U000000ac"},
{"notin",U"\U00002209"},
{"npar",U"\U00002226"},
{"npr",U"\U00002280"},
{"npre",U"\U000022e0"},
{"nrArr",U"\U000021cf"},
{"nrarr",U"\U0000219b"},
{"nrtri",U"\U000022eb"},
{"nrtrie",U"\U000022ed"},
{"nsc",U"\U00002281"},
{"nsce",U"\U000022e1"},
{"nsim",U"\U00002241"},
{"nsime",U"\U00002244"},
{"nspar",U"\U00002226"},
{"nsub",U"\U00002284"},
{"nsubE",U"\U00002288"},
{"nsube",U"\U00002288"},
{"nsup",U"\U00002285"},
{"nsupE",U"\U00002289"},
{"nsupe",U"\U00002289"},
{"ntilde",U"\U000000f1"},
{"ntilde",U"\U0000006e\U00000303"},
{"nu",U"\U000003bd"},
{"num",U"\U00000023"},
{"numero",U"\U00002116"},
{"numl",U"\U0000006e\U00000308"},
{"numsp",U"\U00002007"},
{"nvDash",U"\U000022ad"},
{"nvdash",U"\U000022ac"},
{"nwarr",U"\U00002196"},
{"oS",U"\U000024c8"},
{"oacgr",U"\U000003cc"},
{"oacute",U"\U000000f3"},
{"oacute",U"\U0000006f\U00000301"},
{"oast",U"\U0000229b"},
{"obreve",U"\U0000006f\U00000306"},
{"obring",U"\U0000006f\U0000032f"},
{"ocaron",U"\U000001d2"},
{"ocaron",U"\U0000006f\U0000030c"},
{"ocir",U"\U0000229a"},
{"ocirc",U"\U000000f4"},
{"ocirc",U"\U0000006f\U00000302"},
{"ocy",U"\U0000043e"},
{"odash",U"\U0000229d"},
{"odblac",U"\U00000151"},
{"odot",U"\U00002299"},
{"odot",U"\U0000006f\U00000307"},
{"odotb",U"\U00001ecd"},
{"oelig",U"\U00000153"},
{"ogon",U"\U000002db"},
{"ogr",U"\U000003bf"},
{"ograve",U"\U000000f2"},
{"ograve",U"\U0000006f\U00000300"},
{"ohacgr",U"\U000003ce"},
{"ohgr",U"\U000003c9"},
{"ohm",U"\U00002126"},
{"olarr",U"\U000021ba"},
{"oline",U"\U0000203e"},
{"omacr",U"\U0000014d"},
{"omacr",U"\U0000006f\U00000304"},
{"omega",U"\U000003c9"},
{"omicron",U"\U000003bf"},
{"ominus",U"\U00002296"},
{"oplus",U"\U00002295"},
{"or",U"\U00002228"},
{"orarr",U"\U000021bb"},
{"order",U"\U00002134"},
{"ordf",U"\U000000aa"},
{"ordm",U"\U000000ba"},
{"oslash",U"\U000000f8"},
{"osol",U"\U00002298"},
{"otilde",U"\U000000f5"},
{"otilde",U"\U0000006f\U00000303"},
{"otimes",U"\U00002297"},
{"ouml",U"\U000000f6"},
{"ouml",U"\U0000006f\U00000308"},
{"pacute",U"\U00000070\U00000301"},
{"page",U"\U0000000c"},
{"par",U"\U00002225"},
{"para",U"\U000000b6"},
{"part",U"\U00002202"},
{"pbreve",U"\U00000070\U00000306"},
{"pbring",U"\U00000070\U0000032f"},
{"pcaron",U"\U00000070\U0000030c"},
{"pcirc",U"\U00000070\U00000302"},
{"pcy",U"\U0000043f"},
{"pdot",U"\U00000070\U00000307"},
{"percnt",U"\U00000025"},
{"period",U"\U0000002e"},
{"permil",U"\U00002030"},
{"perp",U"\U000022a5"},
{"pgr",U"\U000003c0"},
{"pgrave",U"\U00000070\U00000300"},
{"phgr",U"\U000003c6"},
{"phi",U"\U000003c6"},
{"phis",U"\U000003c6"},
{"phiv",U"\U000003d5"},
{"phmmat",U"\U00002133"},
{"phone",U"\U0000260e"},
{"pi",U"\U000003c0"},
{"piv",U"\U000003d6"},
{"planck",U"\U0000210f"},
{"plus",U"\U0000002b"},
{"plusb",U"\U0000229e"},
{"plusdo",U"\U00002214"},
{"plusmn",U"\U000000b1"},
{"pmacr",U"\U00000070\U00000304"},
{"pound",U"\U000000a3"},
{"pr",U"\U0000227a"},
{"pre",U"\U0000227c"},
{"prime",U"\U00002032"},
{"prnsim",U"\U000022e8"},
{"prod",U"\U0000220f"},
{"prop",U"\U0000221d"},
{"prsim",U"\U0000227e"},
{"psgr",U"\U000003c8"},
{"psi",U"\U000003c8"},
{"ptilde",U"\U00000070\U00000303"},
{"puml",U"\U00000070\U00000308"},
{"puncsp",U"\U00002008"},
{"qacute",U"\U00000071\U00000301"},
{"qbreve",U"\U00000071\U00000306"},
{"qbring",U"\U00000071\U0000032f"},
{"qcaron",U"\U00000071\U0000030c"},
{"qcirc",U"\U00000071\U00000302"},
{"qdot",U"\U00000071\U00000307"},
{"qgrave",U"\U00000071\U00000300"},
{"qmacr",U"\U00000071\U00000304"},
{"qtilde",U"\U00000071\U00000303"},
{"quest",U"\U0000003f"},
{"quml",U"\U00000071\U00000308"},
{"quot",U"\U00000022"},
{"rAarr",U"\U000021db"},
{"rArr",U"\U000021d2"},
{"racute",U"\U00000155"},
{"racute",U"\U00000072\U00000301"},
{"radic",U"\U0000221a"},
{"rang",U"\U0000232a"},
{"raquo",U"\U000000bb"},
{"rarr",U"\U00002192"},
{"rarr2",U"\U000021c9"},
{"rarrhk",U"\U000021aa"},
{"rarrlp",U"\U000021ac"},
{"rarrtl",U"\U000021a3"},
{"rarrw",U"\U0000219d"},
{"rbreve",U"\U00000072\U00000306"},
{"rbring",U"\U00000072\U0000032f"},
{"rcaron",U"\U00000159"},
{"rcaron",U"\U00000072\U0000030c"},
{"rcedil",U"\U00000157"},
{"rceil",U"\U00002309"},
{"rcirc",U"\U00000072\U00000302"},
{"rcub",U"\U0000007d"},
{"rcy",U"\U00000440"},
{"rdot",U"\U00000072\U00000307"},
{"rdquo",U"\U0000201d"},
{"rdquor",U"\U0000201c"},
{"real",U"\U0000211c"},
{"rect",U"\U000025ad"},
{"reg",U"\U000000ae"},
{"rfloor",U"\U0000230b"},
{"rgr",U"\U000003c1"},
{"rgrave",U"\U00000072\U00000300"},
{"rhard",U"\U000021c1"},
{"rharu",U"\U000021c0"},
{"rho",U"\U000003c1"},
{"rhov",U"\U000003f1"},
{"ring",U"\U000002da"},
{"rlarr2",U"\U000021c4"},
{"rlhar2",U"\U000021cc"},
{"rlm",U"\U0000200f"},
{"rmacr",U"\U00000072\U00000304"},
{"rpar",U"\U00000029"},
{"rsaquo",U"\U0000203a"},
{"rsh",U"\U000021b1"},
{"rsqb",U"\U0000005d"},
{"rsquo",U"\U00002019"},
{"rsquor",U"\U00002018"},
{"rthree",U"\U000022cc"},
{"rtilde",U"\U00000072\U00000303"},
{"rtimes",U"\U000022ca"},
{"rtri",U"\U000025b9"},
{"rtrie",U"\U000022b5"},
{"rtrif",U"\U000025b8"},
{"ruml",U"\U00000072\U00000308"},
{"rx",U"\U0000211e"},
{"sacute",U"\U0000015b"},
{"sacute",U"\U00000073\U00000301"},
{"samalg",U"\U00002210"},
{"sbquo",U"\U0000201a"},
{"sbreve",U"\U00000073\U00000306"},
{"sbring",U"\U00000073\U0000032f"},
{"sbsol",U"\U0000005c"},
{"sc",U"\U0000227b"},
{"scaron",U"\U00000161"},
{"scaron",U"\U00000073\U0000030c"},
{"sccue",U"\U0000227d"},
{"sce",U"\U0000227d"},
{"scedil",U"\U0000015f"},
{"schwa",U"\U00000259"},
{"schwaacute",U"\U00000259\U00000301"},
{"schwadgrave",U"\U00000259\U0000030f"},
{"schwagrave",U"\U00000259\U00000300"},
{"schwamacr",U"\U00000259\U00000304"},
{"scirc",U"\U0000015d"},
{"scirc",U"\U00000073\U00000302"},
{"scnsim",U"\U000022e9"},
{"scsim",U"\U0000227f"},
{"scy",U"\U00000441"},
{"sdot",U"\U000022c5"},
{"sdot",U"\U00000073\U00000307"},
{"sdotb",U"\U000022a1"},
{"sect",U"\U000000a7"},
{"semi",U"\U0000003b"},
{"setmn",U"\U00002216"},
{"sext",U"\U00002736"},
{"sfgr",U"\U000003c2"},
{"sfrown",U"\U00002322"},
{"sgr",U"\U000003c3"},
{"sgrave",U"\U00000073\U00000300"},
{"sharp",U"\U0000266f"},
{"shchcy",U"\U00000449"},
{"shcy",U"\U00000448"},
{"shy",U"\U000000ad"},
{"sigma",U"\U000003c3"},
{"sigmaf",U"\U000003c2"},
{"sigmav",U"\U000003c2"},
{"sim",U"\U0000223c"},
{"sime",U"\U00002243"},
{"smacr",U"\U00000073\U00000304"},
{"smile",U"\U00002323"},
{"softcy",U"\U0000044c"},
{"sol",U"\U0000002f"},
{"spades",U"\U00002660"},
{"spar",U"\U00002225"},
{"sqcap",U"\U00002293"},
{"sqcup",U"\U00002294"},
{"sqsub",U"\U0000228f"},
{"sqsube",U"\U00002291"},
{"sqsup",U"\U00002290"},
{"sqsupe",U"\U00002292"},
{"squ",U"\U000025a1"},
{"square",U"\U000025a1"},
{"squarf",U"\U000025a0"},
{"squf",U"\U000025aa"},
{"ssetmn",U"\U00002216"},
{"ssmile",U"\U00002323"},
{"sstarf",U"\U000022c6"},
{"star",U"\U00002606"},
{"starf",U"\U00002605"},
{"stilde",U"\U00000073\U00000303"},
{"sub",U"\U00002282"},
{"subE",U"\U00002286"},
{"sube",U"\U00002286"},
{"subnE",U"\U0000228a"},
{"subne",U"\U0000228a"},
{"sum",U"\U00002211"},
{"suml",U"\U00000073\U00000308"},
{"sung",U"\U0000266a"},
{"sup",U"\U00002283"},
{"sup1",U"\U000000b9"},
{"sup2",U"\U000000b2"},
{"sup3",U"\U000000b3"},
{"supE",U"\U00002287"},
{"supe",U"\U00002287"},
{"supnE",U"\U0000228b"},
{"supne",U"\U0000228b"},
{"szlig",U"\U000000df"},
{"tacute",U"\U00000074\U00000301"},
{"target",U"\U00002316"},
{"tau",U"\U000003c4"},
{"tbreve",U"\U00000074\U00000306"},
{"tbring",U"\U00000074\U0000032f"},
{"tcaron",U"\U00000165"},
{"tcaron",U"\U00000074\U0000030c"},
{"tcedil",U"\U00000163"},
{"tcirc",U"\U00000074\U00000302"},
{"tcy",U"\U00000442"},
{"tdot",U"\U000020db"},
{"tdot",U"\U00000074\U00000307"},
{"telrec",U"\U00002315"},
{"tgr",U"\U000003c4"},
{"tgrave",U"\U00000074\U00000300"},
{"there4",U"\U00002234"},
{"theta",U"\U000003b8"},
{"thetas",U"\U000003b8"},
{"thetasym",U"\U000003d1"},
{"thetav",U"\U000003d1"},
{"thgr",U"\U000003b8"},
{"thinsp",U"\U00002009"},
{"thkap",U"\U00002248"},
{"thksim",U"\U0000223c"},
{"thorn",U"\U000000fe"},
{"tilde",U"\U000002dc"},
{"times",U"\U000000d7"},
{"timesb",U"\U000022a0"},
{"tmacr",U"\U00000074\U00000304"},
{"top",U"\U000022a4"},
{"tprime",U"\U00002034"},
{"trade",U"\U00002122"},
{"trie",U"\U0000225c"},
{"tscy",U"\U00000446"},
{"tshcy",U"\U0000045b"},
{"tstrok",U"\U00000167"},
{"ttilde",U"\U00000074\U00000303"},
{"tuml",U"\U00000074\U00000308"},
{"twixt",U"\U0000226c"},
{"uArr",U"\U000021d1"},
{"uacgr",U"\U000003cd"},
{"uacute",U"\U000000fa"},
{"uacute",U"\U00000075\U00000301"},
{"uarr",U"\U00002191"},
{"uarr2",U"\U000021c8"},
{"ubrcy",U"\U0000045e"},
{"ubreve",U"\U0000016d"},
{"ubreve",U"\U00000075\U00000306"},
{"ubring",U"\U00000075\U0000032f"},
{"ucaron",U"\U00000075\U0000030c"},
{"ucirc",U"\U000000fb"},
{"ucirc",U"\U00000075\U00000302"},
{"ucy",U"\U00000443"},
{"udblac",U"\U00000171"},
{"udiagr",U"\U000003b0"},
{"udigr",U"\U000003cb"},
{"udot",U"\U00000075\U00000307"},
{"ugr",U"\U000003c5"},
{"ugrave",U"\U000000f9"},
{"ugrave",U"\U00000075\U00000300"},
{"uharl",U"\U000021bf"},
{"uharr",U"\U000021be"},
{"uhblk",U"\U00002580"},
{"ulcorn",U"\U0000231c"},
{"ulcrop",U"\U0000230f"},
{"umacr",U"\U0000016b"},
{"umacr",U"\U00000075\U00000304"},
{"uml",U"\U000000a8"},
{"uogon",U"\U00000173"},
{"uplus",U"\U0000228e"},
{"upsi",U"\U000003c5"},
{"upsih",U"\U000003d2"},
{"upsilon",U"\U000003c5"},
{"urcorn",U"\U0000231d"},
{"urcrop",U"\U0000230e"},
{"uring",U"\U0000016f"},
{"utilde",U"\U00000169"},
{"utilde",U"\U00000075\U00000303"},
{"utri",U"\U000025b5"},
{"utrif",U"\U000025b4"},
{"uuml",U"\U000000fc"},
{"uuml",U"\U00000075\U00000308"},
{"vArr",U"\U000021d5"},
{"vDash",U"\U000022a8"},
{"vacute",U"\U00000076\U00000301"},
{"varr",U"\U00002195"},
{"vbreve",U"\U00000076\U00000306"},
{"vbring",U"\U00000076\U0000032f"},
{"vcaron",U"\U00000076\U0000030c"},
{"vcirc",U"\U00000076\U00000302"},
{"vcy",U"\U00000432"},
{"vdash",U"\U000022a2"},
{"vdot",U"\U00000076\U00000307"},
{"veebar",U"\U000022bb"},
{"vellip",U"\U000022ee"},
{"verbar",U"\U0000007c"},
{"vgrave",U"\U00000076\U00000300"},
{"vltri",U"\U000022b2"},
{"vmacr",U"\U00000076\U00000304"},
{"vprime",U"\U00002032"},
{"vprop",U"\U0000221d"},
{"vrtri",U"\U000022b3"},
{"vsubnE",U"\U0000228a"},
{"vsubne",U"\U0000228a"},
{"vsupnE",U"\U0000228b"},
{"vsupne",U"\U0000228b"},
{"vtab",U"\U0000000b"},
{"vtilde",U"\U00000076\U00000303"},
{"vuml",U"\U00000076\U00000308"},
{"wacute",U"\U00000077\U00000301"},
{"wbreve",U"\U00000077\U00000306"},
{"wbring",U"\U00000077\U0000032f"},
{"wcaron",U"\U00000077\U0000030c"},
{"wcirc",U"\U00000175"},
{"wcirc",U"\U00000077\U00000302"},
{"wdot",U"\U00000077\U00000307"},
{"wedgeq",U"\U00002259"},
{"weierp",U"\U00002118"},
{"wgrave",U"\U00000077\U00000300"},
{"wmacr",U"\U00000077\U00000304"},
{"wreath",U"\U00002240"},
{"wtilde",U"\U00000077\U00000303"},
{"wuml",U"\U00000077\U00000308"},
{"xacute",U"\U00000078\U00000301"},
{"xbreve",U"\U00000078\U00000306"},
{"xbring",U"\U00000078\U0000032f"},
{"xcaron",U"\U00000078\U0000030c"},
{"xcirc",U"\U000025cb"},
{"xcirc",U"\U00000078\U00000302"},
{"xdot",U"\U00000078\U00000307"},
{"xdtri",U"\U000025bd"},
{"xgr",U"\U000003be"},
{"xgrave",U"\U00000078\U00000300"},
{"xhArr",U"\U00002194"},
{"xharr",U"\U00002194"},
{"xi",U"\U000003be"},
{"xlArr",U"\U000021d0"},
{"xmacr",U"\U00000078\U00000304"},
{"xrArr",U"\U000021d2"},
{"xtilde",U"\U00000078\U00000303"},
{"xuml",U"\U00000078\U00000308"},
{"xutri",U"\U000025b3"},
{"yacute",U"\U000000fd"},
{"yacute",U"\U00000079\U00000301"},
{"yacy",U"\U0000044f"},
{"ybreve",U"\U00000079\U00000306"},
{"ybring",U"\U00000079\U0000032f"},
{"ycaron",U"\U00000079\U0000030c"},
{"ycirc",U"\U00000177"},
{"ycirc",U"\U00000079\U00000302"},
{"ycy",U"\U0000044b"},
{"ydot",U"\U00000079\U00000307"},
{"yen",U"\U000000a5"},
{"ygrave",U"\U00000079\U00000300"},
{"yicy",U"\U00000457"},
{"ymacr",U"\U00000079\U00000304"},
{"ytilde",U"\U00000079\U00000303"},
{"yucy",U"\U0000044e"},
{"yuml",U"\U000000ff"},
{"yuml",U"\U00000079\U00000308"},
{"zacute",U"\U0000017a"},
{"zacute",U"\U0000007a\U00000301"},
{"zbreve",U"\U0000007a\U00000306"},
{"zbring",U"\U0000007a\U0000032f"},
{"zcaron",U"\U0000017e"},
{"zcaron",U"\U0000007a\U0000030c"},
{"zcirc",U"\U0000007a\U00000302"},
{"zcy",U"\U00000437"},
{"zdot",U"\U0000017c"},
{"zdot",U"\U0000007a\U00000307"},
{"zeta",U"\U000003b6"},
{"zgr",U"\U000003b6"},
{"zgrave",U"\U0000007a\U00000300"},
{"zhcy",U"\U00000436"},
{"zmacr",U"\U0000007a\U00000304"},
{"ztilde",U"\U0000007a\U00000303"},
{"zuml",U"\U0000007a\U00000308"},
{"zwj",U"\U0000200d"},
{"zwnj",U"\U0000200c"},
