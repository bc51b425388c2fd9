from props import PROPS
HARNESSES = []
def H(name, prop, file, src, **kw):
    HARNESSES.append(dict(name=name, prop=prop, file=file, src=src, **kw))
CAP = lambda n: {'BKBuffer.h': [('BK_BUFFER_CAPACITY', str(n))]}
B = ['BKBuffer.c']
MI=['vp_mem_int.h']
H('buf_time','B01','buffer.c',B,defs=['H_TIME=77777','H_K=0'],shrink=CAP(37),sat='minisat2')
H('buf_time1','B01','buffer.c',B,defs=['H_TIME=1048575','H_K=1'],shrink=CAP(37),sat='minisat2')
H('buf_full','B01','buffer.c',B,defs=['H_FULL'],unwind=4200)
H('buf_safe','B01','buffer.c',B,defs=['H_SAFE'])
H('buf_size','B01','buffer.c',B,defs=['H_SIZE'],shrink=CAP(48),inc=MI)
H('buf_clear','B01','buffer.c',B,defs=['H_CLEAR'],shrink=CAP(40))
H('buf_ahead','B01','buffer.c',B,defs=['H_AHEAD'],shrink=CAP(48),inc=MI)
H('buf_fract','B01','buffer.c',B,defs=['H_FRACT'],shrink=CAP(48),inc=MI)
H('buf_kernel','B02','buffer.c',B,defs=['H_KERNEL'],shrink=CAP(40))
for f in (0,13,31):
  H('buf_linear%d'%f,'B02','buffer.c',B,defs=['H_LINEAR=%d'%f],shrink=CAP(36))
H('buf_cancel','B02','buffer.c',B,defs=['H_CANCEL=1'],shrink=CAP(36))
H('buf_split','B03','buffer.c',B,defs=['H_SPLIT'],shrink=CAP(48),inc=MI)
H('buf_level','B04','buffer.c',B,defs=['H_LEVEL'],shrink=CAP(48),inc=MI)
H('buf_decay','B04','buffer.c',B,defs=['H_DECAY'],shrink=CAP(48),inc=MI)
H('time64','T01','time.c',[]);H('time32','T01','time.c',[],defs=['VP_TIME32'])
for n,d in ((1,240),(1,1),(3,7)):
  H('fromsec_%d_%d'%(n,d),'T01','fromsec.c',[],defs=['H_NUM=%d'%n,'H_DEN=%d'%d])
  H('fromsec32_%d_%d'%(n,d),'T01','fromsec.c',[],defs=['H_NUM=%d'%n,'H_DEN=%d'%d,'VP_TIME32'])
for n in range(0,96,12):
  H('tone_mono%d'%n,'T02','tone.c',['BKTone.c'],defs=['H_MONO=%d'%n,'H_NUM=12','H_BITS=5','H_RATE=%d'%(16000,44100,48000,96000)[n//12%4]])
  H('tone_log%d'%n,'T02','tone.c',['BKTone.c'],defs=['H_LOG2=%d'%n,'H_NUM=12','H_BITS=5'])
for n in range(0,96,24):
  H('tone_linear%d'%n,'T02','tone.c',['BKTone.c'],defs=['H_LINEAR=%d'%n,'H_NUM=24'])
  H('tone_tuning%d'%n,'T02','tone.c',['BKTone.c'],defs=['H_TUNING=%d'%n])
H('tone_clamp','T02','tone.c',['BKTone.c'],defs=['H_CLAMP'])
H('status','O02','status.c',['BKBase.c'])
ALL = ['BKBase.c','BKBuffer.c','BKClock.c','BKContext.c','BKData.c','BKInstrument.c','BKInterpolation.c','BKObject.c','BKSequence.c','BKTone.c','BKTrack.c','BKUnit.c','BKWaveFileReader.c','BKWaveFileWriter.c']
CTX=['BKBuffer.c','BKClock.c','BKContext.c','BKObject.c']
def HC(name, prop, *defs, **kw):
  kw.setdefault('unwind', 7); kw.setdefault('flags',['--object-bits','11'])
  H(name, prop, 'context.c', CTX, hsrc=['unit_stub.c'], defs=list(defs), shrink=CAP(37), **kw)
HC('ctx_ticks','C01','H_TICKS','H_MINP=1','H_MAXP=0x20000000LL','H_CHUNKN=2','H_MAXT=3')
HC('ctx_long','C01','H_TICKS','H_MINP=0x20000000LL','H_MAXP=0x400000000000LL','H_CHUNKN=2','H_MAXT=3')
for a in range(3): HC('ctx_two%d'%a,'C02','H_TWO=%d'%a,'H_BITS=4','H_SHIFT=20',unwind=6)
HC('ctx_divider','C01','H_DIVIDER',unwind=14)
HC('ctx_newdiv','C01','H_NEWDIV',unwind=14)
for a in range(1,7): HC('ctx_period%d'%a,'C01','H_PERIOD=%d'%a)
for a in range(1,6):
  if a in (1,5): HC('ctx_other%d'%a,'C03','H_OTHER=%d'%a,'H_BITS=3','H_SHIFT=20',unwind=6)
  for at in (0,1): HC('ctx_other%d_%d'%(a,at),'C03','H_OTHER=%d'%a,'H_AT=%d'%at,'H_BITS=4','H_SHIFT=20',unwind=6)
HC('ctx_noclock','C02','H_NOCLOCK')
def HCS(name, prop, *defs, **kw):
  kw.setdefault('unwind', 9)
  H(name, prop, 'context.c', ['BKClock.c','BKContext.c','BKObject.c'], hsrc=['unit_stub.c','buffer_stub.c'], defs=list(defs), flags=['--object-bits','11'], **kw)
for k in (0,1): HCS('ctx_totime%d'%k,'C02','H_TOTIME=%d'%k,'H_SHIFT=%d'%(18+k),tier=('quick','thorough')[k])
HCS('ctx_tofail','C04','H_TOTIME=2','H_SHIFT=18')
for k in (0,1): HCS('ctx_limits%d'%k,'C04','H_LIMITS=%d'%k,unwind=10,inc=['vp_pool.h'])
for k in (1,2,3): HCS('ctx_generate%d'%k,'C04','H_GENERATE=%d'%k)
HCS('ctx_read','C04','H_ERROR')
HCS('ctx_reset','C02','H_RESET',unwind=6)
for k in range(8):
  for n in range(4): HCS('ctx_dispose%d_%d'%(k,n),'C03','H_DISPOSE=%d'%k,'H_NEXT=%d'%n,'H_BITS=8','H_SHIFT=20',unwind=7)
for k in (0,18): HC('ctx_induct%d'%k,'C02','H_INDUCT','H_SHIFT=%d'%k,unwind=5)
for k,nm in enumerate(('clock','unit','divider')):
  for f,o,d in ((3,0,-1),(3,0,0),(3,0,1),(3,0,2),(2,1,0),(2,1,-1),(0,0,-1)):
    H('list_%s_%d%d%s'%(nm,f,o,'' if d<0 else '_%d'%d),'C03','list.c',ALL,defs=['H_LIST=%d'%k,'H_FIXED=%d'%f,'H_OTHER=%d'%o,'H_DETACH=%d'%d],shrink=CAP(37),unwind=6)

def HU(name, prop, *defs, **kw):
  kw.setdefault('unwind', 9)
  H(name, prop, 'unit.c', ['BKUnit.c','BKObject.c','BKData.c','BKWaveFileReader.c'], defs=list(defs), inc=['vp_pulse.h'], **kw)
for k,w in enumerate(('square','triangle','sawtooth','sine')):
  HU('unit_'+w,'U01','H_WAVE=%d'%(k+1),'H_VOL=32767','H_VOL2=0',unwind=7)
HU('unit_noise','U01','H_NOISE','H_VOL=32767','H_VOL2=16384',unwind=7)
HU('unit_custom','U01','H_CUSTOM=5','H_VOL=32767','H_VOL2=16384',unwind=7)
HU('unit_custom70','U01','H_CUSTOM=70','H_VOL=32767','H_VOL2=0',unwind=7)
HU('unit_duty','U01','H_DUTY',unwind=33)
for ph in range(1,32,5):
  HU('unit_vol2_%d'%ph,'U02','H_VOLUMES=%d'%ph,'H_VOLUMES_N=%d'%(2 if ph in (1,31) else 1),'H_CH=2','H_A=0','H_B=1','H_ON=3',sat='minisat2')
HU('unit_vol1','U02','H_VOLUMES=9','H_VOLUMES_N=3','H_CH=1','H_A=0','H_B=0','H_ON=1',sat='minisat2')
for a,b,on,m in ((1,7,0xF1,0),(3,4,0x81,0),(1,5,1,1),(2,6,0x55,0)):
  HU('unit_vol8_%d%d'%(a,b),'U02','H_VOLUMES=23','H_VOLUMES_N=2','H_CH=8','H_A=%d'%a,'H_B=%d'%b,'H_ON=%d'%on,'H_MUTE=%d'%m)

for m,nm in enumerate(('once','repeat','palin')):
  step=['H_STEP=3'] if m==2 else []
  HU('unit_sample_'+nm,'U03','H_SAMPLE=%d'%m,'H_CH=1','H_SHIFT=18','H_T=20',*step,unwind=10)
  HU('unit_samplecb_'+nm,'U03','H_SAMPLE=%d'%m,'H_CH=1','H_SHIFT=20','H_T=4','H_STEP=3','H_CB',unwind=10)
for k in range(3):
  HU('unit_sustain%d'%k,'U03','H_SAMPLE=0','H_SUSTAIN=%d'%k,'H_CH=1','H_SHIFT=20','H_T=5','H_STEP=2',unwind=10)
HU('unit_stereo','U03','H_SAMPLE=0','H_STEREO','H_CH=2','H_SHIFT=20','H_T=4','H_STEP=2',unwind=10)
HU('unit_three','U02','H_SAMPLE=0','H_STEREO','H_CH=3','H_SHIFT=20','H_T=3','H_STEP=2',unwind=10)
for k in (0,1): HU('unit_far%d'%k,'U03','H_FAR=%d'%k,'H_CH=1',unwind=66)
for k,w in ((1,'square'),(2,'triangle'),(3,'sawtooth'),(4,'sine'),(5,'noise'),(6,'custom')):
  HU('unit_split_'+w,'U05','H_SPLIT=%d'%k,'H_T=255',unwind=10)
for r in (0,1):
  for m in range(3): HU('unit_split_sample%d%d'%(r,m),'U05','H_SPLIT=7','H_SHIFT=18','H_T=31','H_REV=%d'%r,'H_REPEAT=%d'%m,'H_CH=2',unwind=10)
for k in range(3): HU('unit_attr%d'%k,'U04','H_ATTR=%d'%k,'H_CH=1',unwind=21)
HU('unit_ptr_other','U04','H_PTR=-1','H_CH=2','H_DCH=1',unwind=10)
for k in range(36):
  for c in (1,2,3):
    if k%6 in (1,4) or c==1: HU('unit_ptr%d_%d'%(k,c),'U04','H_PTR=%d'%k,'H_CH=2','H_DCH=%d'%c,unwind=10)

def also(prop, *names):
  for n in names:
    h = [x for x in HARNESSES if x['name'] == n][0]
    HARNESSES.append(dict(h, prop=prop, name=n + '_' + prop.lower()))
also('U02', 'unit_noise', 'unit_stereo')
HU('unit_chan_custom','U02','H_CUSTOM=5','H_VOL=32767','H_VOL2=16384','H_PULSES=1',unwind=7)

IP=['BKInterpolation.c']
def HI(name, prop, mx, rng, *defs, **kw):
  kw.setdefault('unwind', 48)
  H(name+('_vol' if mx==32767 else '_note'), prop, 'interp.c', IP, defs=list(defs)+['H_MAX=%d'%mx,'H_RANGE=%d'%rng], **kw)
for mx,rng in ((32767,32767),(0,96<<20)):
  G=lambda n: ['H_G=%d'%((9 if mx else 21)+(n>3))] if n>2 else []
  for n in (1,2,3,5,10):
    HI('slide%d'%n,'I01',mx,rng,'H_SLIDE=%d'%n,*G(n))
  for n,at in ((3,1),(5,4),(7,2)): HI('slide%d_at%d'%(n,at),'I01',mx,rng,'H_SLIDE=%d'%n,'H_AT=%d'%at,'H_G=%d'%(12 if mx else 24))
  HI('slide_any','I01',mx,rng,'H_BIG=3')
for mx,rng in ((32767,32767),(0,24<<20)):
  G=lambda n: ['H_G=%d'%(8 if mx else 18)] if n>2 else []
  for n in (1,2,3,5): HI('osc%d'%n,'I02',mx,rng,'H_INTERVAL=%d'%n,'H_AT=0',*G(n))
  for n,m,at in ((3,0,4),(4,7,10),(7,4,5),(2,3,7),(3,1,11)):
    HI('osc%d_%d'%(n,m),'I02',mx,rng,'H_INTERVAL=%d'%n,'H_AT=%d'%at,*G(9)+(['H_NEW=%d'%m] if m else []))

SQ=['BKSequence.c']
for n,t in ((1,4),(2,6),(3,8),(4,9)): H('seq%d'%n,'S01','seq.c',SQ,defs=['H_SIMPLE=%d'%n,'H_T=%d'%t],unwind=t+3)
for i,st in enumerate(((2,3,1),(0,2,3),(3,0,2),(1,1,0),(2,0,0),(0,3,0))):
  for so,sl in ((3,0),(0,1),(1,1),(0,3),(2,1),(1,2)):
    for rel in (1,3,9): H('env%d_%d%d_%d'%(i,so,sl,rel),'S02','seq.c',SQ,defs=['H_ENVELOPE=3','H_STEPS=%d,%d,%d'%st,'H_SO=%d'%so,'H_SL=%d'%sl,'H_REL=%d'%rel,'H_RANGE=32767','H_FRAC=15','H_G=9','H_T=7']+(['H_START'] if rel==3 else []),inc=['vp_seq.h'],unwind=33)
for i,st in enumerate(((3,2,1),(0,3,0))):
  for so,sl in ((3,0),(1,1)):
    H('env_small%d_%d%d'%(i,so,sl),'S02','seq.c',SQ,defs=['H_ENVELOPE=3','H_STEPS=%d,%d,%d'%st,'H_SO=%d'%so,'H_SL=%d'%sl,'H_REL=4','H_RANGE=1','H_FRAC=25','H_T=7','H_START'],inc=['vp_seq.h'],unwind=33)
SEQ=['BKSequence.c','BKInstrument.c','BKObject.c']
# operation, instrument, state/slot, kind: 0 set values (length), 1 use (or none), 2 phase, 3 tick, 4 detach/dispose, 5 copy from other
INS=['0002,1000,3000,0001,3000,3000,1010,2002','0002,1000,1010,2011,3010,0010,4001,3010','0002,0011,5100,1100,4001,3010,0102,3000',
 '0001,0012,1000,3001,3001,2003,3000,3001,3000','0002,1000,3001,2003,1010,3010,0001,3000,3010','1000,1010,0002,2001,3000,0012,2011,3010,0010',
 '0001,0111,1000,1110,1100,3000,4101,3010,1000,2002','0002,0012,1000,5100,1110,0000,3010,4001,3010,3010','1000,2001,0012,3000,1100,5000',
 '0001,1000,1001,1000,2002,1000,3000','0001,1000,3000,4000,1000,3000','0002,0102,1000,1110,1010,4000,3000,3010,4101','0012,1000,1010,1001,4001,0011,1010,2003,3010,5000']
for n,ops in enumerate(INS):
  ops=[str(int(x)) for x in ops.split(',')]
  H('ins_%d'%n,'N01','seq.c',SEQ,defs=['H_INSTR=%d'%len(ops),'H_OPS='+','.join(ops)],unwind=13,flags=['--object-bits','10'])
for a,d,r,rel in ((2,2,2,6),(0,3,1,4),(3,0,2,2),(1,1,0,3),(0,0,3,1)):
  H('adsr%d%d%d_%d'%(a,d,r,rel),'S02','seq.c',SEQ,defs=['H_ENVELOPE=4','H_ADSR','H_STEPS=%d,%d,240,%d'%(a,d,r),'H_SO=2','H_SL=1','H_REL=%d'%rel,'H_RANGE=32767','H_FRAC=15','H_G=9','H_T=%d'%(rel+r+2)],inc=['vp_seq.h'],unwind=33)
TRK=['BKTrack.c','BKUnit.c','BKInstrument.c','BKSequence.c','BKInterpolation.c','BKObject.c']
def HK(name, prop, *defs, **kw):
  kw.setdefault('unwind', 34)
  H(name, prop, 'track.c', TRK, defs=list(defs), inc=['vp_track.h'], **kw)
for m in (3,5,6,7,8,10,12): HK('trk_volume%d'%m,'K01','H_VOLUME=%d'%m)
for m in (32767,12345): HK('trk_volfull%d'%m,'K01','H_VOLUME=1','H_FULL=%d'%m)
HK('trk_volume_mono','K01','H_VOLUME=7','H_CH=1')
HK('trk_volume_three','K01','H_VOLUME=6','H_CH=3')
HK('trk_volume_tri','K01','H_VOLUME=9','H_WAVE=BK_TRIANGLE')
HK('trk_volume_tri2','K01','H_VOLUME=6','H_WAVE=BK_TRIANGLE')
HK('trk_volume_tri3','K01','H_VOLUME=9','H_WAVE=BK_TRIANGLE','H_TRI=0')
for k in (0,1,2): HK('trk_clamp%d'%k,'K01','H_CLAMP=%d'%k)
HK('trk_slide','K01','H_SLIDE=3')
for n in (2,3): HK('trk_tremolo%d'%n,'K01','H_TREMOLO=%d'%n)
for n in range(4): HK('trk_note%d'%n,'K02','H_NOTE=%d'%n)
HK('trk_note_tri','K02','H_NOTE=0','H_WAVE=BK_TRIANGLE')
HK('trk_portamento','K02','H_PORTAMENTO=3')
for n in (1,3): HK('trk_vibrato%d'%n,'K02','H_VIBRATO=%d'%n)
for d,h,t in ((1,2,2),(3,1,1),(2,2,1)): HK('trk_life%d%d%d'%(d,h,t),'K02','H_LIFE=%d'%d,'H_HOLD=%d'%h,'H_TAIL=%d'%t,'H_T=%d'%(2*d*h))
for k in (0,1):
  for c in (1,2): HK('trk_attach%d_%d'%(k,c),'K02','H_ATTACH=%d'%k,'H_CH=%d'%c)
for k in (0,2):
  for o in (0,1): HK('trk_effect%d_%d'%(k,o),'K03','H_EFFECT=%d'%k,'H_ORDER=%d'%o,'H_SINGLE=%d'%(o+k//2))
HK('trk_oldptr','K03','H_OLDPTR')
for n,m,d,at in ((3,2,2,3),(1,4,1,2),(8,3,1,5),(10,-1,2,9),(4,11,0,3),(2,0,2,3),(3,3,3,4)): HK('trk_arp%d_%d'%(n,abs(m)),'K04','H_ARP=%d'%n,'H_ARP2=%d'%m,'H_DIV=%d'%d,'H_AT=%d'%at,'H_T=%d'%(at+max(2,d)*4))
HK('trk_arpany','K04','H_ARPANY')
for r in (0,1):
  for t in (0,2): HK('trk_reset%d_%d'%(r,t),'K05','H_RESET=%d'%r,'H_TICKS=%d'%t)
for k in (0,1,2): HK('trk_data%d'%k,'K02','H_DATA=%d'%k,'H_FRAMES=%d'%(3,64,130)[k])
for w in ('BK_SAMPLE','BK_CUSTOM','77'): HK('trk_invalid_'+w.lower(),'K05','H_INVALID='+w)
SCR=['21,3,0,104,1,102,0,102,1,103','22,3,0,105,0,102,1,105,0,103,2,102','0,102,21,3,103,4,103,5,102,1,101','22,3,0,103,1,101,0,105,1,106','21,3,0,102,1,101,5,101,0,102,4,101,1,103',
 '23,4,0,104,8,102,9,102,10,104,1,105','21,3,0,102,6,102,0,101,4,102,7,101,1,101','22,3,1,102,0,102,2,101,1,102,0,101,1,101,1,103','22,0,101,3,101,3,102,4,103,3,102,1,102,4,102','4,0,103,22,103,21,102,11,102,1,11,104',
 '21,3,0,101,1,4,102,0,102,1,3,101,0,103,5,102,3,101']
FRM=[('3,1,1','0,0,0','2,0,2','0,0,0'),('2,2,0','0,0,0','3,0,1','2,1,0'),('0,0,0','3,1,1','0,0,0','3,3,0'),('0,0,0','2,0,1','3,3,0','2,0,1'),('1,0,0','0,0,0','0,0,0','0,0,0'),('0,0,0','0,0,0','0,0,0','0,0,0'),('4,1,2','0,0,0','0,0,0','3,3,0')]
for i,o in enumerate(SCR):
  for j in range(2):
    f,g=FRM[(i+3*j)%7],FRM[(i*2+j+1)%7]
    HK('trk_script%d_%d'%(i,j),'K06','H_SCRIPT','H_OPS='+o,*(['H_NOTES'] if set(o.split(','))&{'5','6','7'} else []),*['H_%s%s=%s'%(nm,k,v) for k,ff in (('',f),('2',g)) for nm,v in zip(('VOL','PAN','PIT','DUT'),ff)])
for n,(d,st,at,d2) in enumerate(((3,2,2,1),(2,3,3,4),(1,4,2,3))): HK('trk_fxdiv%d'%n,'K03','H_FXDIV=%d'%d,'H_STEPS=%d'%st,'H_AT=%d'%at,'H_FXDIV2=%d'%d2,'H_T=%d'%(at+d2*st+2))
for n,o in enumerate(('0,103,0,102,1,102,0,109,0,102','3,0,107,1,105,0,107,1,101,0,103','3,0,103,1,101,0,109,2,101,0,106','5,0,110,1,101,0,103','3,9,0,103,1,105,0,105,1,102','3,0,105,4,1,102,0,103','7,3,0,105,1,102,0,105,8,1,106','3,0,103,1,101,1,101,0,0,106')):
  HK('trk_sample%d'%n,'K06','H_SMPSCRIPT','H_OPS='+o)
HK('trk_vibrato_more','K02','H_VIBRATO=2','H_MORE')
for k in (0,1):
  for n,st in ((2,2),(3,1),(2,4)): HK('trk_fxslide%d_%d%d'%(k,n,st),'K03','H_FXSLIDE=%d'%k,'H_STEPS=%d'%n,'H_SLIDESTEPS=%d'%st,'H_OTHER=%d'%(n==2))
DT=['BKData.c','BKObject.c','BKWaveFileReader.c']
def HD(name, prop, *defs, **kw):
  kw.setdefault('unwind', 34)
  H(name, prop, 'data.c', DT, defs=list(defs), inc=['vp_count.h'], **kw)
for k in (1,2,3,4,5):
  for c,s in ((1,3),(2,4),(3,4),(1,1),(8,3)): HD('data_conv%d_%d_%d'%(k,c,s),'D01','H_CONVERT=%d'%k,'H_CH=%d'%c,'H_SIZE=%d'%s,'H_ENDIAN=0')
for e in ('0','BK_BIG_ENDIAN','BK_LITTLE_ENDIAN'):
  for c,s in ((1,5),(2,8),(3,13),(1,3)): HD('data_conv16_%s_%d_%d'%(e.lower(),c,s),'D01','H_CONVERT=6','H_CH=%d'%c,'H_SIZE=%d'%s,'H_ENDIAN='+e)
HD('data_refuse','D01','H_REFUSE')
for n in (2,7): HD('data_range%d'%n,'D01','H_RANGE=%d'%n)
for n,s,l,c in ((3,1,15,0),(2,1,100,0),(3,2048,16,1),(2,256,128,1),(2,655,50,1),(4,4369,7,0)): HD('data_norm%d_%d'%(n,s),'D02','H_NORMALIZE=%d'%n,'H_STEP=%d'%s,'H_LIM=%d'%l,'H_COPY=%d'%c)
OWN=['0014,6000,6100,1114,0024,11101,4022,6200,7000,8000','1024,6000,2014,5000,3000,2012,1114,10010,12000,1022','6000,6100,6200,0013,11001,0014,7100,6000,1012,4113,8000,6000,0012',
 '9000,0014,9000,1113,9100,5000,9000,8000,9000','4014,3000,3000,10100,1014,10010,4114,2022,5000','6000,6000,6100,7000,7200,6200,11101,0113,5000,0112,11201,12000,6100,1012','6200,6100,6000,11001,11101,11201,0012,6000,0013,1112']
for i,o in enumerate(OWN): HD('data_own%d'%i,'D03','H_OWN','H_OPS='+','.join(str(int(x)) for x in o.split(',')))
WV=['BKWaveFileReader.c','BKWaveFileWriter.c','BKData.c','BKObject.c']
def HW(name, prop, *defs, **kw):
  kw.setdefault('unwind', 130); kw.setdefault('flags',['--max-field-sensitivity-array-size','1200'])
  H(name, prop, 'wave.c', WV, defs=list(defs), inc=['vp_count.h'], **kw)
for i,(n,ch,bits,off,split,term) in enumerate(((6,1,16,0,'6','1'),(6,2,16,0,'2,4','1,1'),(6,3,8,0,'3,0,3','0,1,0'),(5,1,8,7,'1,4','1,0'),(8,2,16,3,'4,2,2','0,0,0'),(0,1,16,0,'0','1'),(0,2,8,5,'0,0','1,1'),(16,8,16,0,'8,8','1,0'))):
  d=['VP_FILES=%d'%(n*2+48+off),'H_WRITE','H_N=%d'%n,'H_CH=%d'%ch,'H_BITS=%d'%bits,'H_OFF=%d'%off,'H_SPLIT='+split,'H_TERM='+term,'H_EVERY=1']+(['H_RATE=%d'%(44100+i)] if i in (1,4,7) else [])
  HW('wav_write%d'%i,'W01',*d); HW('wav_header%d'%i,'W03',*d)
HW('wav_none','W03','VP_FILES=60','H_WRITE','H_N=0','H_CH=1','H_BITS=16','H_OFF=4','H_SPLIT=','H_TERM=','H_EVERY=1')
for bits,n in ((8,1030),(16,520)): HW('wav_long%d'%bits,'W01','VP_FILES=1100','H_WRITE','H_N=%d'%n,'H_CH=2','H_BITS=%d'%bits,'H_OFF=0','H_SPLIT=%d,2'%(n-2),'H_TERM=0,0','H_EVERY=%d'%(n//8),unwind=1200)
for bits in (8,16):
  HW('wav_data%d'%bits,'W01','VP_FILES=80','H_WRITE','H_DATA','H_N=6','H_CH=3','H_BITS=%d'%bits,'H_OFF=2','H_SPLIT=6','H_TERM=1','H_EVERY=1')
  for f in (0,11,12,40,44,46,48,51,52): HW('wav_full%d_%d'%(bits,f),'W03','VP_FILES=80','H_FULL=%d'%f,'H_BITS=%d'%bits)
for f in (0,11,12,35,36,43,44,48,51): HW('wav_trunc%d'%f,'W02','VP_FILES=80','H_READ=%d'%f,'H_ANY=%s'%(f-1 if f>44 else 79),'H_DATAPOS=44','H_BITS=16')

def wavbase(fmtsize=16,ch=2,bits=16,fmt=1,rate=44100,datasize=8,extra=b'',ext=b''):
  import struct
  b=b'RIFF\0\0\0\0WAVEfmt '+struct.pack('<IHHIIHH',fmtsize,fmt,ch,rate,0,0,bits)+ext+extra+b'data'+struct.pack('<I',datasize)
  return b
def HR(name,size,any_,valid,chs,frames,bits=16,pos=None,**kw):
  b=wavbase(bits=bits,**kw)
  HW('wav_'+name,'W02','VP_FILES=%d'%(size+4),'H_READ=%d'%size,'H_BASE='+','.join(map(str,b)),'H_ANY='+','.join(map(str,any_)),'H_DATAPOS=%d'%len(b),'H_BITS=%d'%bits,'H_VALID='+valid,'H_CHANNELS=%s'%chs,'H_FRAMES=%s'%frames,*(['H_HEADER','H_POS=%s'%(len(b) if pos is None else pos)] if any_ and any_[0]!=4 else []))
V=lambda i,n: 'le(vp_file+%d,%d)'%(i,n)
HR('format',52,[20,21],V(20,2)+'==1','2','2')
HR('bits',52,[34,35],V(34,2)+'==8 || '+V(34,2)+'==16','2',V(34,2)+'==8?4:2')
HR('channels',68,[22,23],V(22,2)+'>=1',V(22,2),'24/2/'+V(22,2),datasize=24)
HR('rate',52,[24,25,26,27],V(24,4)+'>=1 && '+V(24,4)+'<0x80000000u','2','2')
HR('magic',52,[0,1,2,3,8,9,10,11,12,13,14,15],'memcmp(vp_file,"RIFF",4)==0&&memcmp(vp_file+8,"WAVEfmt ",8)==0','2','2')
HR('ignored',52,[4,5,6,7,28,29,30,31,32,33],'1','2','2')
HR('size',61,[40,41,42,43],'1','2',V(40,4)+'?'+V(40,4)+'/4:4')
HR('size8',61,[40,41,42,43],V(40,4)+'<=0x7fffffffu','1',V(40,4)+'?'+V(40,4)+':17',bits=8,ch=1)
HR('size3',61,[40,41,42,43],'1','3',V(40,4)+'?'+V(40,4)+'/3:5',bits=8,ch=3)
for n in (0,1,7,8,9,11,12,15,16,17,24,28,52):
  HR('load%d'%n,44+16,[4],str(int(not n or 8<=n<52)),'2',str((n or 16)//4),datasize=n)
for n in (1,5,6,8,9,13,14,15,27): HR('load8_%d'%n,44+12,[4],str(int(6<=n<27)),'3',str(n//3),datasize=n,bits=8,ch=3)
for c in (0,1,8,9,12,65535): HR('loadch%d'%c,44+24,[4],str(int(1<=c<=8)),str(c),str(24//c if c else 0),datasize=24,bits=8,ch=c)
HR('huge',44+24,[4],'0','2','0',datasize=0xfffffff0)
for r in (0,1,0x7fffffff,0x80000000): HR('rate%x'%r,52,[4],str(int(0<r<2**31)),'2','2',rate=r)
HR('list',72,[4,44,45,46,47],'1','2','2',extra=b'LIST'+bytes([4,0,0,0,1,2,3,4]))
HR('listodd',80,[4,44,45,46,47,56,57],'1','2','2',extra=b'LIST'+bytes([3,0,0,0,1,2,3,4])+b'fact'+bytes([1,0,0,0,9,0]))
HR('listend',80,[4],'0','2','2',extra=b'LIST'+bytes([60,0,0,0]))
HR('listhuge',80,[4],'0','2','2',extra=b'LIST'+bytes([255]*4))
HR('ext',56,[4,36,37],'1','2','2',fmtsize=18,ext=bytes([0,0]))
HR('extodd',56,[4,36,37],'1','2','2',fmtsize=17,ext=bytes([0,0]))
for n in (0,15): HR('fmt%d'%n,56,[4],'0','2','2',fmtsize=n)
HR('chunksize',64,[40],"vp_file[40]==3||vp_file[40]==4||((vp_file[40]==12||vp_file[40]==11)&&memcmp(vp_file+56,\"data\",4)==0)",'2',"vp_file[40]<=4?2:"+V(60,4)+"/4",extra=b'LIST'+bytes([4,0,0,0,1,2,3,4]),pos='vp_file[40]<=4?56:64')
def HO(name, prop, src, *defs, **kw):
  kw.setdefault('unwind', 400); kw.setdefault('flags',['--max-field-sensitivity-array-size','1200'])
  H(name, prop, 'object.c', src, defs=list(defs), inc=['vp_count.h'], **kw)
for n in (1,8,40): HO('obj_class%d'%n,'O01',['BKObject.c'],'H_CLASS=%d'%n)
OA=[f for f in ALL if 'Wave' not in f]+['BKWaveFileReader.c','BKWaveFileWriter.c']
for k,src in enumerate((['BKClock.c','BKObject.c'],['BKClock.c','BKObject.c'],['BKClock.c','BKContext.c','BKBuffer.c','BKObject.c','BKUnit.c','BKData.c','BKWaveFileReader.c'],['BKData.c','BKObject.c','BKWaveFileReader.c'],['BKInstrument.c','BKSequence.c','BKObject.c'],['BKUnit.c','BKObject.c','BKData.c','BKWaveFileReader.c','BKBuffer.c'],OA)):
  HO('obj_kind%d'%k,'O01',src,'H_KIND=%d'%k,unwind=700 if k==5 else 40 if k==3 else 20 if k==6 else 12,flags=['--object-bits','11','--max-field-sensitivity-array-size','4000'],shrink=CAP(37))
for n in (2,7): HO('obj_range%d'%n,'O01',['BKData.c','BKObject.c','BKWaveFileReader.c'],'H_RANGE=%d'%n)
for k in range(7): HO('oom_alloc%d'%k,'O03',OA,'H_FAILALLOC=%d'%k,unwind=20 if k==5 else 12,flags=['--object-bits','11','--max-field-sensitivity-array-size','4000'],shrink=CAP(37))
for k in range(6):
  for o in (0,1):
    if k==4 and o: continue
    HO('oom_data%d_%d'%(k,o),'O03',['BKData.c','BKObject.c','BKWaveFileReader.c'],'H_FAILDATA=%d'%k,'H_OWN=%d'%o,'H_ALLOCS=%d'%(2 if k==2 else 1),'VP_FILES=60')
for k in range(4): HO('oom_instr%d'%k,'O03',['BKInstrument.c','BKSequence.c','BKObject.c'],'H_FAILINSTR=%d'%k,unwind=18,flags=['--object-bits','10','--max-field-sensitivity-array-size','4000'])
for k in (0,1): HO('oom_seq%d'%k,'O03',['BKSequence.c'],'H_FAILSEQ=%d'%k)
for k,(nm,prop,src) in enumerate((('instr','N01',SEQ),('seq','N01',['BKSequence.c']),('data','D03',DT))):
  for f in (3,4):
    for first in range(4):
      for to in (-1,1):
        for o in (0,1):
          if k<2: H('users_%s%d%d%s_%d'%(nm,f,first,'-+'[to>0],o),prop,'users.c',src,defs=['H_USERS=%d'%k,'H_FIXED=%d'%f,'H_FIRST=%d'%first,'H_TO=%d'%to,'H_OBJ=%d'%o],unwind=10,tier='quick' if k or (first+f+o)%2==0 else 'thorough')
          elif f==4 or first==3: H('users_%s%d%d%s_%d'%(nm,f,first,'-+'[to>0],o),prop,'users.c',src,defs=['H_USERS=%d'%k,'H_ANY','H_FIXED=%d'%f,'H_FIRST=%d'%first,'H_TO=%d'%to,'H_OBJ=%d'%o],unwind=10)
