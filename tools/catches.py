import json,os
here=os.path.dirname(os.path.abspath(__file__))
r={}
for l in '''35fd905 D04, D16
530513f D16
696e990 D14, D17
87c20ee D07
7766025 D12
0ad074d D20
911b3ee R10
16764aa R10
0d272fd R10
fe23425 R05
8075c41 R07
24a6efe R08
f83448d R09
60ad53c R09
ae1e511 R09
699b48d none: its cause was repaired later (68cf4eb, 1a14670), nothing dangles any more
d383899 R11
05e87ee R13
92f85f8 R13
b421988 D20, D12
c0a2703 D20
97eefa8 D12
59a9ba0 D03
531397a D01
aa094f2 D01
d10d736 D01
3c213e4 D06
5d668d4 D05, D01
080cc89 D03
c716bb0 S03
67459ac S02
07e963a D12, D16, D04
b975b05 D10
5c26151 D10
860117d D11
f845391 D11
172009b D17
3ae293d D20
c9ec24b R01
47d1d53 R02
338167f R06
09366c7 R09
85122bc R10
b02a44c R11
68cf4eb R11
1a14670 R11
0a9bb7f S02
c592862 S02
2665007 S03
4f8dedf D12
76b7a54 D11
507a584 D10
e347358 D10
205b7c6 R10
54afa11 R10
e9f4ec0 R07
9f13a06 S05
c696b23 S02
94b1242 D16
831a9be D16
4a7a163 D16
663a259 D11 (on more cases than the quick ones)
459d714 D16
6b48501 D12
eefd921 D12 (on more cases than the quick ones)
e8a4ab6 D13
6f1716f D01
53515dc R08
7ab12b3 R05
c56a061 R06
4f15590 D20
905a6a1 D20
d5ab78c D20
3d83438 R09
c4b7dcd R09
f6ea360 R08
a438c0f S05
06f083e S05
a74c1b5 R07
c64f4e5 D02
7920d13 D12
c71e2b6 R14
9e90a1c S05'''.split('\n'):
    h,x=l.split(' ',1); r[h]=x
s={'d01-salt-wrap':'D01 (after slots were followed around all their generations)','d02-diagonal-unlink':'D02','d19-state-ignored':'D19','r01-touching':'R01'}
p=os.path.join(here,'catches_seeded.json')
if os.path.exists(p): s.update(json.load(open(p)))
json.dump(dict(reverts=r,seeded=s),open(os.path.join(here,'catches.json'),'w'),indent=1)
