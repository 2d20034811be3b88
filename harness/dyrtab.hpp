// Fields of the dynamic model records: attribute name, kind, column of the record (0 is the bus number).
// Written from the PSS/E model descriptions and the field comments of src/parser/parser_classes; i int, d double,
// m model name, g two-character identifier, b true.
#ifndef PBT_DYRTAB_HPP
#define PBT_DYRTAB_HPP
namespace dyr {
struct F { const char *key; char t; int c; };
struct Model { const char *name, *usr; char on; int n; F f[160]; };   // on: g machine, b bus, l load, r branch
static const Model MODELS[] = {
 { "ACMTBLU1", "USRLOD", 'l', 47, { {LOAD_MODEL,'m',3}, {LOAD_TSTALL,'d',11}, {LOAD_TRESTART,'d',12}, {LOAD_TV,'d',13}, 
   {LOAD_TF,'d',14}, {LOAD_COMPLF,'d',15}, {LOAD_COMPPF,'d',16}, {LOAD_VSTALL,'d',17}, {LOAD_RSTALL,'d',18}, {LOAD_XSTALL,'d',19}, 
   {LOAD_LFADJ,'d',20}, {LOAD_KP1,'d',21}, {LOAD_NP1,'d',22}, {LOAD_KQ1,'d',23}, {LOAD_NQ1,'d',24}, {LOAD_KP2,'d',25}, 
   {LOAD_NP2,'d',26}, {LOAD_KQ2,'d',27}, {LOAD_NQ2,'d',28}, {LOAD_VBRK,'d',29}, {LOAD_FRST,'d',30}, {LOAD_VRST,'d',31}, 
   {LOAD_CMPKPF,'d',32}, {LOAD_CMPKQF,'d',33}, {LOAD_VC1OFF,'d',34}, {LOAD_VC2OFF,'d',35}, {LOAD_VC1ON,'d',36}, 
   {LOAD_VC2ON,'d',37}, {LOAD_TTH,'d',38}, {LOAD_TH1T,'d',39}, {LOAD_TH2T,'d',40}, {LOAD_FUVR,'d',41}, {LOAD_UVTR1,'d',42}, 
   {LOAD_TTR1,'d',43}, {LOAD_UVTR2,'d',44}, {LOAD_TTR2,'d',45}, {LOAD_AC_PERC,'d',46} } },
 { "CIM6BL", 0, 'l', 28, { {LOAD_MODEL,'m',1}, {LOAD_IT,'i',3}, {LOAD_RA,'d',4}, {LOAD_XA,'d',5}, {LOAD_XM,'d',6}, 
   {LOAD_R1,'d',7}, {LOAD_X1,'d',8}, {LOAD_R2,'d',9}, {LOAD_X2,'d',10}, {LOAD_E1,'d',11}, {LOAD_SE1,'d',12}, {LOAD_E2,'d',13}, 
   {LOAD_SE2,'d',14}, {LOAD_MBASE,'d',15}, {LOAD_PMULT,'d',16}, {LOAD_H,'d',17}, {LOAD_VI,'d',18}, {LOAD_TI,'d',19}, 
   {LOAD_TB,'d',20}, {LOAD_A,'d',21}, {LOAD_B,'d',22}, {LOAD_D,'d',23}, {LOAD_E,'d',24}, {LOAD_C0,'d',25}, {LOAD_TNOM,'d',26}, 
   {LOAD_DYN_PERC,'d',27} } },
 { "CMLDBLU1", "USRLOD", 'l', 143, { {LOAD_MODEL,'m',3}, {LOAD_IT,'i',5}, {LOAD_MVA,'d',11}, {LOAD_BSS,'d',12}, 
   {LOAD_RFDR,'d',13}, {LOAD_XFDR,'d',14}, {LOAD_FB,'d',15}, {LOAD_XXF,'d',16}, {LOAD_TFIXHS,'d',17}, {LOAD_TFIXLS,'d',18}, 
   {LOAD_LTC,'d',19}, {LOAD_TMIN,'d',20}, {LOAD_TMAX,'d',21}, {LOAD_STEP,'d',22}, {LOAD_VMIN,'d',23}, {LOAD_VMAX,'d',24}, 
   {LOAD_TDEL,'d',25}, {LOAD_TTAP,'d',26}, {LOAD_RCOMP,'d',27}, {LOAD_XCOMP,'d',28}, {LOAD_FMA,'d',29}, {LOAD_FMB,'d',30}, 
   {LOAD_FMC,'d',31}, {LOAD_FMD,'d',32}, {LOAD_FEL,'d',33}, {LOAD_PFEL,'d',34}, {LOAD_VD1,'d',35}, {LOAD_VD2,'d',36}, 
   {LOAD_PFS,'d',37}, {LOAD_P1E,'d',38}, {LOAD_P1C,'d',39}, {LOAD_P2E,'d',40}, {LOAD_P2C,'d',41}, {LOAD_PFREQ,'d',42}, 
   {LOAD_Q1E,'d',43}, {LOAD_Q1C,'d',44}, {LOAD_Q2E,'d',45}, {LOAD_Q2C,'d',46}, {LOAD_QFREQ,'d',47}, {LOAD_MTPA,'i',48}, 
   {LOAD_LFMA,'d',49}, {LOAD_RSA,'d',50}, {LOAD_LSA,'d',51}, {LOAD_LPA,'d',52}, {LOAD_LPPA,'d',53}, {LOAD_TPOA,'d',54}, 
   {LOAD_TPPOA,'d',55}, {LOAD_HA,'d',56}, {LOAD_ETRQA,'d',57}, {LOAD_VTR1A,'d',58}, {LOAD_TTR1A,'d',59}, {LOAD_FTR1A,'d',60}, 
   {LOAD_VRC1A,'d',61}, {LOAD_TRC1A,'d',62}, {LOAD_VTR2A,'d',63}, {LOAD_TTR2A,'d',64}, {LOAD_FTR2A,'d',65}, {LOAD_VRC2A,'d',66}, 
   {LOAD_TRC2A,'d',67}, {LOAD_MTPB,'i',68}, {LOAD_LFMB,'d',69}, {LOAD_RSB,'d',70}, {LOAD_LSB,'d',71}, {LOAD_LPB,'d',72}, 
   {LOAD_LPPB,'d',73}, {LOAD_TPOB,'d',74}, {LOAD_TPPOB,'d',75}, {LOAD_HB,'d',76}, {LOAD_ETRQB,'d',77}, {LOAD_VTR1B,'d',78}, 
   {LOAD_TTR1B,'d',79}, {LOAD_FTR1B,'d',80}, {LOAD_VRC1B,'d',81}, {LOAD_TRC1B,'d',82}, {LOAD_VTR2B,'d',83}, {LOAD_TTR2B,'d',84}, 
   {LOAD_FTR2B,'d',85}, {LOAD_VRC2B,'d',86}, {LOAD_TRC2B,'d',87}, {LOAD_MTPC,'i',88}, {LOAD_LFMC,'d',89}, {LOAD_RSC,'d',90}, 
   {LOAD_LSC,'d',91}, {LOAD_LPC,'d',92}, {LOAD_LPPC,'d',93}, {LOAD_TPOC,'d',94}, {LOAD_TPPOC,'d',95}, {LOAD_HC,'d',96}, 
   {LOAD_ETRQC,'d',97}, {LOAD_VTR1C,'d',98}, {LOAD_TTR1C,'d',99}, {LOAD_FTR1C,'d',100}, {LOAD_VRC1C,'d',101}, {LOAD_TRC1C,'d',102}, 
   {LOAD_VTR2C,'d',103}, {LOAD_TTR2C,'d',104}, {LOAD_FTR2C,'d',105}, {LOAD_VRC2C,'d',106}, {LOAD_TRC2C,'d',107}, 
   {LOAD_TSTALL,'d',108}, {LOAD_TRST,'d',109}, {LOAD_TV,'d',110}, {LOAD_TF,'d',111}, {LOAD_LFMD,'d',112}, {LOAD_COMPPF,'d',113}, 
   {LOAD_VSTALL,'d',114}, {LOAD_RSTALL,'d',115}, {LOAD_XSTALL,'d',116}, {LOAD_LFADJ,'d',117}, {LOAD_KP1,'d',118}, 
   {LOAD_NP1,'d',119}, {LOAD_KQ1,'d',120}, {LOAD_NQ1,'d',121}, {LOAD_KP2,'d',122}, {LOAD_NP2,'d',123}, {LOAD_KQ2,'d',124}, 
   {LOAD_NQ2,'d',125}, {LOAD_VBRK,'d',126}, {LOAD_FRST,'d',127}, {LOAD_VRST,'d',128}, {LOAD_CMPKPF,'d',129}, {LOAD_CMPKQF,'d',130}, 
   {LOAD_VC1OFF,'d',131}, {LOAD_VC2OFF,'d',132}, {LOAD_VC1ON,'d',133}, {LOAD_VC2ON,'d',134}, {LOAD_TTH,'d',135}, 
   {LOAD_TH1T,'d',136}, {LOAD_TH2T,'d',137}, {LOAD_FUVR,'d',138}, {LOAD_UVTR1,'d',139}, {LOAD_TTR1,'d',140}, {LOAD_UVTR2,'d',141}, 
   {LOAD_TTR2,'d',142} } },
 { "DISTR1", 0, 'r', 40, { {RELAY_MODEL,'m',1}, {RELAY_ID,'g',3}, {RELAY_RS,'i',4}, {RELAY_MTYPE,'i',5}, {RELAY_BMON,'i',6}, 
   {RELAY_IBUS1,'i',7}, {RELAY_JBUS1,'i',8}, {RELAY_ID1,'g',9}, {RELAY_IBUS2,'i',10}, {RELAY_JBUS2,'i',11}, {RELAY_ID2,'g',12}, 
   {RELAY_IBUS3,'i',13}, {RELAY_JBUS3,'i',14}, {RELAY_ID3,'g',15}, {RELAY_ZONE1_TIME,'d',16}, {RELAY_ZONE1_REACH,'d',17}, 
   {RELAY_ZONE1_CENANG,'d',18}, {RELAY_ZONE1_CENDIS,'d',19}, {RELAY_ZONE2_TIME,'d',20}, {RELAY_ZONE2_REACH,'d',21}, 
   {RELAY_ZONE2_CENANG,'d',22}, {RELAY_ZONE2_CENDIS,'d',23}, {RELAY_ZONE3_TIME,'d',24}, {RELAY_ZONE3_REACH,'d',25}, 
   {RELAY_ZONE3_CENANG,'d',26}, {RELAY_ZONE3_CENDIS,'d',27}, {RELAY_DIRANG,'d',28}, {RELAY_THCUR,'d',29}, {RELAY_SEBTIME,'d',30}, 
   {RELAY_SERCTIME,'d',31}, {RELAY_TRBTIME,'d',32}, {RELAY_TRRCTIME,'d',33}, {RELAY_BLTYPE1,'i',34}, {RELAY_BLINT1,'d',35}, 
   {RELAY_BLRO1,'d',36}, {RELAY_BLTYPE2,'i',37}, {RELAY_BLINT2,'d',38}, {RELAY_BLRO2,'d',39} } },
 { "ESST1A", 0, 'g', 23, { {HAS_EXCITER,'b',0}, {EXCITER_MODEL,'m',1}, {EXCITER_UEL,'d',3}, {EXCITER_VOS,'d',4}, 
   {EXCITER_TR,'d',5}, {EXCITER_VIMAX,'d',6}, {EXCITER_VIMIN,'d',7}, {EXCITER_TC,'d',8}, {EXCITER_TB,'d',9}, {EXCITER_TC1,'d',10}, 
   {EXCITER_TB1,'d',11}, {EXCITER_KA,'d',12}, {EXCITER_TA,'d',13}, {EXCITER_VAMAX,'d',14}, {EXCITER_VAMIN,'d',15}, 
   {EXCITER_VRMAX,'d',16}, {EXCITER_VRMIN,'d',17}, {EXCITER_KC,'d',18}, {EXCITER_KF,'d',19}, {EXCITER_TF,'d',20}, 
   {EXCITER_KLR,'d',21}, {EXCITER_ILR,'d',22} } },
 { "ESST4B", 0, 'g', 20, { {HAS_EXCITER,'b',0}, {EXCITER_MODEL,'m',1}, {EXCITER_TR,'d',3}, {EXCITER_KPR,'d',4}, 
   {EXCITER_KIR,'d',5}, {EXCITER_VRMAX,'d',6}, {EXCITER_VRMIN,'d',7}, {EXCITER_TA,'d',8}, {EXCITER_KPM,'d',9}, 
   {EXCITER_KIM,'d',10}, {EXCITER_VMMAX,'d',11}, {EXCITER_VMMIN,'d',12}, {EXCITER_KG,'d',13}, {EXCITER_KP,'d',14}, 
   {EXCITER_KI,'d',15}, {EXCITER_VBMAX,'d',16}, {EXCITER_KC,'d',17}, {EXCITER_XL,'d',18}, {EXCITER_THETAP,'d',19} } },
 { "EXDC1", 0, 'g', 19, { {HAS_EXCITER,'b',0}, {EXCITER_MODEL,'m',1}, {EXCITER_TR,'d',3}, {EXCITER_KA,'d',4}, {EXCITER_TA,'d',5}, 
   {EXCITER_TB,'d',6}, {EXCITER_TC,'d',7}, {EXCITER_VRMAX,'d',8}, {EXCITER_VRMIN,'d',9}, {EXCITER_KE,'d',10}, {EXCITER_TE,'d',11}, 
   {EXCITER_KF,'d',12}, {EXCITER_TF1,'d',13}, {EXCITER_SWITCH,'d',14}, {EXCITER_E1,'d',15}, {EXCITER_SE1,'d',16}, 
   {EXCITER_E2,'d',17}, {EXCITER_SE2,'d',18} } },
 { "EXDC2", 0, 'g', 19, { {HAS_EXCITER,'b',0}, {EXCITER_MODEL,'m',1}, {EXCITER_TR,'d',3}, {EXCITER_KA,'d',4}, {EXCITER_TA,'d',5}, 
   {EXCITER_TB,'d',6}, {EXCITER_TC,'d',7}, {EXCITER_VRMAX,'d',8}, {EXCITER_VRMIN,'d',9}, {EXCITER_KE,'d',10}, {EXCITER_TE,'d',11}, 
   {EXCITER_KF,'d',12}, {EXCITER_TF1,'d',13}, {EXCITER_SWITCH,'d',14}, {EXCITER_E1,'d',15}, {EXCITER_SE1,'d',16}, 
   {EXCITER_E2,'d',17}, {EXCITER_SE2,'d',18} } },
 { "FRQTPAT", 0, 'b', 9, { {RELAY_MODEL,'m',1}, {RELAY_GENID,'g',4}, {RELAY_MINS,'i',0}, {RELAY_FREBUS,'i',2}, 
   {RELAY_FL,'d',5}, {RELAY_FU,'d',6}, {RELAY_TP,'d',7}, {RELAY_TB,'d',8} } },
 { "GAST", 0, 'g', 12, { {HAS_GOVERNOR,'b',0}, {GOVERNOR_MODEL,'m',1}, {GOVERNOR_R,'d',3}, {GOVERNOR_T1,'d',4}, 
   {GOVERNOR_T2,'d',5}, {GOVERNOR_T3,'d',6}, {GOVERNOR_AT,'d',7}, {GOVERNOR_KT,'d',8}, {GOVERNOR_VMAX,'d',9}, {GOVERNOR_VMIN,'d',10}, 
   {GOVERNOR_DT,'d',11} } },
 { "GDFORM", 0, 'g', 22, { {GENERATOR_MODEL,'m',1}, {GENERATOR_MQ,'d',3}, {GENERATOR_KPV,'d',4}, {GENERATOR_KIV,'d',5}, 
   {GENERATOR_MP,'d',6}, {GENERATOR_KPPMAX,'d',7}, {GENERATOR_KIPMAX,'d',8}, {GENERATOR_PMAX,'d',9}, {GENERATOR_PMIN,'d',10}, 
   {GENERATOR_EMAX,'d',11}, {GENERATOR_EMIN,'d',12}, {GENERATOR_TPF,'d',13}, {GENERATOR_IMAX,'d',14}, {GENERATOR_QMAX,'d',15}, 
   {GENERATOR_QMIN,'d',16}, {GENERATOR_KPQMAX,'d',17}, {GENERATOR_KIQMAX,'d',18}, {GENERATOR_TQF,'d',19}, {GENERATOR_TVF,'d',20}, 
   {GENERATOR_VFLAG,'i',21} } },
 { "GENCLS", 0, 'g', 6, { {GENERATOR_MODEL,'m',1}, {GENERATOR_INERTIA_CONSTANT_H,'d',3}, {GENERATOR_DAMPING_COEFFICIENT_0,'d',4}, 
   {GENERATOR_TRANSIENT_REACTANCE,'d',5} } },
 { "GENROU", 0, 'g', 17, { {GENERATOR_MODEL,'m',1}, {GENERATOR_TDOP,'d',3}, {GENERATOR_TDOPP,'d',4}, {GENERATOR_TQOP,'d',5}, 
   {GENERATOR_TQOPP,'d',6}, {GENERATOR_INERTIA_CONSTANT_H,'d',7}, {GENERATOR_DAMPING_COEFFICIENT_0,'d',8}, {GENERATOR_XD,'d',9}, 
   {GENERATOR_XQ,'d',10}, {GENERATOR_XDP,'d',11}, {GENERATOR_XQP,'d',12}, {GENERATOR_XDPP,'d',13}, {GENERATOR_XL,'d',14}, 
   {GENERATOR_S1,'d',15}, {GENERATOR_S12,'d',16} } },
 { "GENSAL", 0, 'g', 15, { {GENERATOR_MODEL,'m',1}, {GENERATOR_TDOP,'d',3}, {GENERATOR_TDOPP,'d',4}, {GENERATOR_TQOPP,'d',5}, 
   {GENERATOR_INERTIA_CONSTANT_H,'d',6}, {GENERATOR_DAMPING_COEFFICIENT_0,'d',7}, {GENERATOR_XD,'d',8}, {GENERATOR_XQ,'d',9}, 
   {GENERATOR_XDP,'d',10}, {GENERATOR_XDPP,'d',11}, {GENERATOR_XL,'d',12}, {GENERATOR_S1,'d',13}, {GENERATOR_S12,'d',14} } },
 { "GGOV1", 0, 'g', 38, { {HAS_GOVERNOR,'b',0}, {GOVERNOR_MODEL,'m',1}, {GOVERNOR_RSELECT,'d',3}, {GOVERNOR_FLAGSWITCH,'d',4}, 
   {GOVERNOR_R,'d',5}, {GOVERNOR_TPELEC,'d',6}, {GOVERNOR_MAXERR,'d',7}, {GOVERNOR_MINERR,'d',8}, {GOVERNOR_KPGOV,'d',9}, 
   {GOVERNOR_KIGOV,'d',10}, {GOVERNOR_KDGOV,'d',11}, {GOVERNOR_TDGOV,'d',12}, {GOVERNOR_VMAX,'d',13}, {GOVERNOR_VMIN,'d',14}, 
   {GOVERNOR_TACT,'d',15}, {GOVERNOR_KTURB,'d',16}, {GOVERNOR_WFNL,'d',17}, {GOVERNOR_TB,'d',18}, {GOVERNOR_TC,'d',19}, 
   {GOVERNOR_TENG,'d',20}, {GOVERNOR_TFLOAD,'d',21}, {GOVERNOR_KPLOAD,'d',22}, {GOVERNOR_KILOAD,'d',23}, {GOVERNOR_LDREF,'d',24}, 
   {GOVERNOR_DM,'d',25}, {GOVERNOR_ROPEN,'d',26}, {GOVERNOR_RCLOSE,'d',27}, {GOVERNOR_KIMW,'d',28}, {GOVERNOR_ASET,'d',29}, 
   {GOVERNOR_KA,'d',30}, {GOVERNOR_TA,'d',31}, {GOVERNOR_TRATE,'d',32}, {GOVERNOR_DB,'d',33}, {GOVERNOR_TSA,'d',34}, 
   {GOVERNOR_TSB,'d',35}, {GOVERNOR_RUP,'d',36}, {GOVERNOR_RDOWN,'d',37} } },
 { "HYGOV", 0, 'g', 15, { {HAS_GOVERNOR,'b',0}, {GOVERNOR_MODEL,'m',1}, {GOVERNOR_R,'d',3}, {GOVERNOR_r,'d',4}, 
   {GOVERNOR_TR,'d',5}, {GOVERNOR_TF,'d',6}, {GOVERNOR_TG,'d',7}, {GOVERNOR_VELM,'d',8}, {GOVERNOR_GMAX,'d',9}, 
   {GOVERNOR_GMIN,'d',10}, {GOVERNOR_TW,'d',11}, {GOVERNOR_AT,'d',12}, {GOVERNOR_DT,'d',13}, {GOVERNOR_QNL,'d',14} } },
 { "IEEET1", 0, 'g', 17, { {HAS_EXCITER,'b',0}, {EXCITER_MODEL,'m',1}, {EXCITER_TR,'d',3}, {EXCITER_KA,'d',4}, 
   {EXCITER_TA,'d',5}, {EXCITER_VRMAX,'d',6}, {EXCITER_VRMIN,'d',7}, {EXCITER_KE,'d',8}, {EXCITER_TE,'d',9}, {EXCITER_KF,'d',10}, 
   {EXCITER_TF1,'d',11}, {EXCITER_SWITCH,'d',12}, {EXCITER_E1,'d',13}, {EXCITER_SE1,'d',14}, {EXCITER_E2,'d',15}, 
   {EXCITER_SE2,'d',16} } },
 { "IEELBL", 0, 'l', 17, { {LOAD_MODEL,'m',1}, {LOAD_A1,'d',3}, {LOAD_A2,'d',4}, {LOAD_A3,'d',5}, {LOAD_A4,'d',6}, 
   {LOAD_A5,'d',7}, {LOAD_A6,'d',8}, {LOAD_A7,'d',9}, {LOAD_A8,'d',10}, {LOAD_N1,'d',11}, {LOAD_N2,'d',12}, {LOAD_N3,'d',13}, 
   {LOAD_N4,'d',14}, {LOAD_N5,'d',15}, {LOAD_N6,'d',16} } },
 { "LVSHBL", 0, 'b', 14, { {RELAY_MODEL,'m',1}, {RELAY_LID,'g',2}, {RELAY_JBUS,'i',3}, {RELAY_V1,'d',4}, {RELAY_T1,'d',5}, 
   {RELAY_F1,'d',6}, {RELAY_V2,'d',7}, {RELAY_T2,'d',8}, {RELAY_F2,'d',9}, {RELAY_V3,'d',10}, {RELAY_T3,'d',11}, 
   {RELAY_F3,'d',12}, {RELAY_TB,'d',13} } },
 { "PSSSIM", 0, 'g', 18, { {HAS_PSS,'b',0}, {PSS_MODEL,'m',1}, {PSSSIM_INPUTTYPE,'i',3}, {PSSSIM_BUS1,'i',4}, {PSSSIM_BUS2,'i',5}, 
   {PSSSIM_BUS3,'i',6}, {PSSSIM_BUS4,'i',7}, {PSSSIM_BUS5,'i',8}, {PSSSIM_BUS6,'i',9}, {PSSSIM_GAINK,'d',10}, {PSSSIM_TW,'d',11}, 
   {PSSSIM_T1,'d',12}, {PSSSIM_T2,'d',13}, {PSSSIM_T3,'d',14}, {PSSSIM_T4,'d',15}, {PSSSIM_MAXOUT,'d',16}, {PSSSIM_MINOUT,'d',17} } },
 { "REECA1", 0, 'g', 54, { {HAS_EXCITER,'b',0}, {EXCITER_MODEL,'m',1}, {GENERATOR_REECA_IREG,'i',3}, {GENERATOR_REECA_PFFLAG,'i',4}, 
   {GENERATOR_REECA_VFLAG,'i',5}, {GENERATOR_REECA_QFLAG,'i',6}, {GENERATOR_REECA_PFLAG,'i',7}, {GENERATOR_REECA_PQFLAG,'i',8}, 
   {GENERATOR_REECA_VDIP,'d',9}, {GENERATOR_REECA_VUP,'d',10}, {GENERATOR_REECA_TRV,'d',11}, {GENERATOR_REECA_DBD1,'d',12}, 
   {GENERATOR_REECA_DBD2,'d',13}, {GENERATOR_REECA_KQV,'d',14}, {GENERATOR_REECA_IQH1,'d',15}, {GENERATOR_REECA_IQL1,'d',16}, 
   {GENERATOR_REECA_VREF0,'d',17}, {GENERATOR_REECA_IQFRZ,'d',18}, {GENERATOR_REECA_THLD,'d',19}, {GENERATOR_REECA_THLD2,'d',20}, 
   {GENERATOR_REECA_TP,'d',21}, {GENERATOR_REECA_QMAX,'d',22}, {GENERATOR_REECA_QMIN,'d',23}, {GENERATOR_REECA_VMAX,'d',24}, 
   {GENERATOR_REECA_VMIN,'d',25}, {GENERATOR_REECA_KQP,'d',26}, {GENERATOR_REECA_KQI,'d',27}, {GENERATOR_REECA_KVP,'d',28}, 
   {GENERATOR_REECA_KVI,'d',29}, {GENERATOR_REECA_VBIAS,'d',30}, {GENERATOR_REECA_TIQ,'d',31}, {GENERATOR_REECA_DPMAX,'d',32}, 
   {GENERATOR_REECA_DPMIN,'d',33}, {GENERATOR_REECA_PMAX,'d',34}, {GENERATOR_REECA_PMIN,'d',35}, {GENERATOR_REECA_IMAX,'d',36}, 
   {GENERATOR_REECA_TPORD,'d',37}, {GENERATOR_REECA_VQ1,'d',38}, {GENERATOR_REECA_IQ1,'d',39}, {GENERATOR_REECA_VQ2,'d',40}, 
   {GENERATOR_REECA_IQ2,'d',41}, {GENERATOR_REECA_VQ3,'d',42}, {GENERATOR_REECA_IQ3,'d',43}, {GENERATOR_REECA_VQ4,'d',44}, 
   {GENERATOR_REECA_IQ4,'d',45}, {GENERATOR_REECA_VP1,'d',46}, {GENERATOR_REECA_IP1,'d',47}, {GENERATOR_REECA_VP2,'d',48}, 
   {GENERATOR_REECA_IP2,'d',49}, {GENERATOR_REECA_VP3,'d',50}, {GENERATOR_REECA_IP3,'d',51}, {GENERATOR_REECA_VP4,'d',52}, 
   {GENERATOR_REECA_IP4,'d',53} } },
 { "REGCA1", 0, 'g', 18, { {GENERATOR_MODEL,'m',1}, {GENERATOR_REGC_LVPLSW,'i',3}, {GENERATOR_REGC_TG,'d',4}, {GENERATOR_REGC_RRPWR,'d',5}, 
   {GENERATOR_REGC_BRKPT,'d',6}, {GENERATOR_REGC_ZEROX,'d',7}, {GENERATOR_REGC_LVPL1,'d',8}, {GENERATOR_REGC_VOLIM,'d',9}, 
   {GENERATOR_REGC_LVPNT1,'d',10}, {GENERATOR_REGC_LVPNT0,'d',11}, {GENERATOR_REGC_LOLIM,'d',12}, {GENERATOR_REGC_TFLTR,'d',13}, 
   {GENERATOR_REGC_KHV,'d',14}, {GENERATOR_REGC_IQRMAX,'d',15}, {GENERATOR_REGC_IQRMIN,'d',16}, {GENERATOR_REGC_ACCEL,'d',17} } },
 { "REGCB1", 0, 'g', 12, { {GENERATOR_MODEL,'m',1}, {GENERATOR_REGC_RATEFLAG,'i',3}, {GENERATOR_REGC_PQFLAG,'i',4}, 
   {GENERATOR_REGC_TG,'d',5}, {GENERATOR_REGC_TFLTR,'d',6}, {GENERATOR_REGC_IQRMAX,'d',7}, {GENERATOR_REGC_IQRMIN,'d',8}, 
   {GENERATOR_REGC_RRPWR,'d',9}, {GENERATOR_REGC_TE,'d',10}, {GENERATOR_REGC_IMAX,'d',11} } },
 { "REGCC1", 0, 'g', 18, { {GENERATOR_MODEL,'m',1}, {GENERATOR_REGC_RATEFLAG,'i',3}, {GENERATOR_REGC_PQFLAG,'i',4}, 
   {GENERATOR_REGC_TG,'d',5}, {GENERATOR_REGC_TFLTR,'d',6}, {GENERATOR_REGC_IQRMAX,'d',7}, {GENERATOR_REGC_IQRMIN,'d',8}, 
   {GENERATOR_REGC_RRPWR,'d',9}, {GENERATOR_REGC_TE,'d',10}, {GENERATOR_REGC_IMAX,'d',11}, {GENERATOR_REGC_KIP,'d',12}, 
   {GENERATOR_REGC_KII,'d',13}, {GENERATOR_REGC_KPPLL,'d',14}, {GENERATOR_REGC_KIPLL,'d',15}, {GENERATOR_REGC_WMAX,'d',16}, 
   {GENERATOR_REGC_WMIN,'d',17} } },
 { "REPCA1", 0, 'g', 37, { {HAS_PLANT_CONTROLLER,'b',0}, {PLANT_CONTROLLER_MODEL,'m',1}, {GENERATOR_REPCA_IREG,'i',3}, 
   {GENERATOR_REPCA_BRCH_BUS_FROM,'i',4}, {GENERATOR_REPCA_BRCH_BUS_TO,'i',5}, {GENERATOR_REPCA_BRCH_CKT,'g',6}, 
   {GENERATOR_REPCA_VC_FLAG,'i',7}, {GENERATOR_REPCA_REF_FLAG,'i',8}, {GENERATOR_REPCA_F_FLAG,'i',9}, {GENERATOR_REPCA_TFLTR,'d',10}, 
   {GENERATOR_REPCA_KP,'d',11}, {GENERATOR_REPCA_KI,'d',12}, {GENERATOR_REPCA_TFT,'d',13}, {GENERATOR_REPCA_TFV,'d',14}, 
   {GENERATOR_REPCA_VFRZ,'d',15}, {GENERATOR_REPCA_RC,'d',16}, {GENERATOR_REPCA_XC,'d',17}, {GENERATOR_REPCA_KC,'d',18}, 
   {GENERATOR_REPCA_EMAX,'d',19}, {GENERATOR_REPCA_EMIN,'d',20}, {GENERATOR_REPCA_DBD1,'d',21}, {GENERATOR_REPCA_DBD2,'d',22}, 
   {GENERATOR_REPCA_QMAX,'d',23}, {GENERATOR_REPCA_QMIN,'d',24}, {GENERATOR_REPCA_KPG,'d',25}, {GENERATOR_REPCA_KIG,'d',26}, 
   {GENERATOR_REPCA_TP,'d',27}, {GENERATOR_REPCA_FDBD1,'d',28}, {GENERATOR_REPCA_FDBD2,'d',29}, {GENERATOR_REPCA_FEMAX,'d',30}, 
   {GENERATOR_REPCA_FEMIN,'d',31}, {GENERATOR_REPCA_PMAX,'d',32}, {GENERATOR_REPCA_PMIN,'d',33}, {GENERATOR_REPCA_TG,'d',34}, 
   {GENERATOR_REPCA_DDN,'d',35}, {GENERATOR_REPCA_DUP,'d',36} } },
 { "REPCTA1", 0, 'g', 37, { {HAS_PLANT_CONTROLLER,'b',0}, {PLANT_CONTROLLER_MODEL,'m',1}, {GENERATOR_REPCA_IREG,'i',3}, 
   {GENERATOR_REPCA_BRCH_BUS_FROM,'i',4}, {GENERATOR_REPCA_BRCH_BUS_TO,'i',5}, {GENERATOR_REPCA_BRCH_CKT,'g',6}, 
   {GENERATOR_REPCA_VC_FLAG,'i',7}, {GENERATOR_REPCA_REF_FLAG,'i',8}, {GENERATOR_REPCA_F_FLAG,'i',9}, {GENERATOR_REPCA_TFLTR,'d',10}, 
   {GENERATOR_REPCA_KP,'d',11}, {GENERATOR_REPCA_KI,'d',12}, {GENERATOR_REPCA_TFT,'d',13}, {GENERATOR_REPCA_TFV,'d',14}, 
   {GENERATOR_REPCA_VFRZ,'d',15}, {GENERATOR_REPCA_RC,'d',16}, {GENERATOR_REPCA_XC,'d',17}, {GENERATOR_REPCA_KC,'d',18}, 
   {GENERATOR_REPCA_EMAX,'d',19}, {GENERATOR_REPCA_EMIN,'d',20}, {GENERATOR_REPCA_DBD1,'d',21}, {GENERATOR_REPCA_DBD2,'d',22}, 
   {GENERATOR_REPCA_QMAX,'d',23}, {GENERATOR_REPCA_QMIN,'d',24}, {GENERATOR_REPCA_KPG,'d',25}, {GENERATOR_REPCA_KIG,'d',26}, 
   {GENERATOR_REPCA_TP,'d',27}, {GENERATOR_REPCA_FDBD1,'d',28}, {GENERATOR_REPCA_FDBD2,'d',29}, {GENERATOR_REPCA_FEMAX,'d',30}, 
   {GENERATOR_REPCA_FEMIN,'d',31}, {GENERATOR_REPCA_PMAX,'d',32}, {GENERATOR_REPCA_PMIN,'d',33}, {GENERATOR_REPCA_TG,'d',34}, 
   {GENERATOR_REPCA_DDN,'d',35}, {GENERATOR_REPCA_DUP,'d',36} } },
 { "SEXS", 0, 'g', 9, { {HAS_EXCITER,'b',0}, {EXCITER_MODEL,'m',1}, {EXCITER_TA_OVER_TB,'d',3}, {EXCITER_TB,'d',4}, 
   {EXCITER_K,'d',5}, {EXCITER_TE,'d',6}, {EXCITER_EMIN,'d',7}, {EXCITER_EMAX,'d',8} } },
 { "TGOV1", 0, 'g', 10, { {HAS_GOVERNOR,'b',0}, {GOVERNOR_MODEL,'m',1}, {GOVERNOR_R,'d',3}, {GOVERNOR_T1,'d',4}, 
   {GOVERNOR_VMAX,'d',5}, {GOVERNOR_VMIN,'d',6}, {GOVERNOR_T2,'d',7}, {GOVERNOR_T3,'d',8}, {GOVERNOR_DT,'d',9} } },
 { "WSHYGP", 0, 'g', 33, { {HAS_GOVERNOR,'b',0}, {GOVERNOR_MODEL,'m',1}, {GOVERNOR_DB1,'d',3}, {GOVERNOR_ERR,'d',4}, 
   {GOVERNOR_TD,'d',5}, {GOVERNOR_KI,'d',6}, {GOVERNOR_TF,'d',7}, {GOVERNOR_KD,'d',8}, {GOVERNOR_KP,'d',9}, {GOVERNOR_R,'d',10}, 
   {GOVERNOR_TT,'d',11}, {GOVERNOR_KG,'d',12}, {GOVERNOR_TP,'d',13}, {GOVERNOR_VELOPEN,'d',14}, {GOVERNOR_VELCLOSE,'d',15}, 
   {GOVERNOR_PMAX,'d',16}, {GOVERNOR_PMIN,'d',17}, {GOVERNOR_DB2,'d',18}, {GOVERNOR_GV1,'d',19}, {GOVERNOR_PGV1,'d',20}, 
   {GOVERNOR_GV2,'d',21}, {GOVERNOR_PGV2,'d',22}, {GOVERNOR_GV3,'d',23}, {GOVERNOR_PGV3,'d',24}, {GOVERNOR_GV4,'d',25}, 
   {GOVERNOR_PGV4,'d',26}, {GOVERNOR_GV5,'d',27}, {GOVERNOR_PGV5,'d',28}, {GOVERNOR_ATURB,'d',29}, {GOVERNOR_BTURB,'d',30}, 
   {GOVERNOR_TTURB,'d',31}, {GOVERNOR_TRATE,'d',32} } },
 { "WSIEG1", 0, 'g', 39, { {HAS_GOVERNOR,'b',0}, {GOVERNOR_MODEL,'m',1}, {GOVERNOR_JBUS,'i',3}, {GOVERNOR_M,'i',4}, 
   {GOVERNOR_K,'d',5}, {GOVERNOR_T1,'d',6}, {GOVERNOR_T2,'d',7}, {GOVERNOR_T3,'d',8}, {GOVERNOR_UO,'d',9}, {GOVERNOR_UC,'d',10}, 
   {GOVERNOR_PMAX,'d',11}, {GOVERNOR_PMIN,'d',12}, {GOVERNOR_T4,'d',13}, {GOVERNOR_K1,'d',14}, {GOVERNOR_K2,'d',15}, 
   {GOVERNOR_T5,'d',16}, {GOVERNOR_K3,'d',17}, {GOVERNOR_K4,'d',18}, {GOVERNOR_T6,'d',19}, {GOVERNOR_K5,'d',20}, 
   {GOVERNOR_K6,'d',21}, {GOVERNOR_T7,'d',22}, {GOVERNOR_K7,'d',23}, {GOVERNOR_K8,'d',24}, {GOVERNOR_DB1,'d',25}, 
   {GOVERNOR_ERR,'d',26}, {GOVERNOR_DB2,'d',27}, {GOVERNOR_GV1,'d',28}, {GOVERNOR_PGV1,'d',29}, {GOVERNOR_GV2,'d',30}, 
   {GOVERNOR_PGV2,'d',31}, {GOVERNOR_GV3,'d',32}, {GOVERNOR_PGV3,'d',33}, {GOVERNOR_GV4,'d',34}, {GOVERNOR_PGV4,'d',35}, 
   {GOVERNOR_GV5,'d',36}, {GOVERNOR_PGV5,'d',37}, {GOVERNOR_IBLOCK,'i',38} } },
 { "WTARA1", 0, 'g', 5, { {HAS_WIND_AERODYNAMIC,'b',0}, {WIND_AERODYNAMIC,'m',1}, {WIND_ID,'g',2}, {WIND_AD_KA,'d',3}, 
   {WIND_AD_THETA,'d',4} } },
 { "WTDTA1", 0, 'g', 8, { {HAS_WIND_DRIVETRAIN,'b',0}, {WIND_DRIVETRAIN,'m',1}, {WIND_ID,'g',2}, {WIND_DT_H,'d',3}, 
   {WIND_DT_DAMP,'d',4}, {WIND_DT_HFRAC,'d',5}, {WIND_DT_FREQ1,'d',6}, {WIND_DT_DSHAFT,'d',7} } },
 { "WTPTA1", 0, 'g', 13, { {HAS_WIND_PITCHCONTROL,'b',0}, {WIND_PITCHCONTROL,'m',1}, {WIND_ID,'g',2}, {WIND_PC_KIW,'d',3}, 
   {WIND_PC_KPW,'d',4}, {WIND_PC_KIC,'d',5}, {WIND_PC_KPC,'d',6}, {WIND_PC_KCC,'d',7}, {WIND_PC_TP,'d',8}, {WIND_PC_THETAMAX,'d',9}, 
   {WIND_PC_THETAMIN,'d',10}, {WIND_PC_RTHETAMAX,'d',11}, {WIND_PC_RTHETAMIN,'d',12} } },
 { "WTTQA1", 0, 'g', 19, { {HAS_WIND_TORQUECONTROL,'b',0}, {WIND_TORQUECONTROL,'m',1}, {WIND_ID,'g',2}, {WIND_TC_TFLAG,'i',3}, 
   {WIND_TC_KPP,'d',4}, {WIND_TC_KIP,'d',5}, {WIND_TC_TP,'d',6}, {WIND_TC_TWREF,'d',7}, {WIND_TC_TEMAX,'d',8}, 
   {WIND_TC_TEMIN,'d',9}, {WIND_TC_P1,'d',10}, {WIND_TC_SPD1,'d',11}, {WIND_TC_P2,'d',12}, {WIND_TC_SPD2,'d',13}, 
   {WIND_TC_P3,'d',14}, {WIND_TC_SPD3,'d',15}, {WIND_TC_P4,'d',16}, {WIND_TC_SPD4,'d',17}, {WIND_TC_TRATE,'d',18} } },
};
static const int NMODELS = sizeof(MODELS) / sizeof(MODELS[0]);
static const F UC[] = { {"GENERATOR_TYPE",'i',1}, {"GENERATOR_INIT_LEVEL",'d',2}, {"GENERATOR_MIN_GEN",'d',3}, {"GENERATOR_MAX_GEN",'d',4},
  {"GENERATOR_MAX_OP_GEN",'d',5}, {"GENERATOR_MIN_UP",'d',6}, {"GENERATOR_MIN_DOWN",'d',7}, {"GENERATOR_RAMP_UP",'d',8}, {"GENERATOR_RAMP_DOWN",'d',9},
  {"GENERATOR_START_UP",'d',10}, {"GENERATOR_CONST_COST",'d',11}, {"GENERATOR_LIN_COST",'d',12}, {"GENERATOR_CO_2_COST",'d',13},
  {"GENERATOR_INIT_PRD",'d',14}, {"GENERATOR_START_CAP",'d',15}, {"GENERATOR_SHUT_CAP",'d',16} };   // 17 bus, 18 machine
}
#endif
