30,0,64,2,
62,64,65,0,
65,0,66,2,
29,0,67,2,
61,67,68,0,
68,0,69,2,
61,0,70,2,
67,0,71,2,
70,71,72,0,
72,0,73,2,
28,0,74,2,
73,74,75,0,
60,75,76,0,
76,0,77,2,
69,77,78,0,
78,0,79,2,
62,0,80,2,
30,80,81,0,
81,0,82,2,
79,82,83,0,
83,0,84,2,
66,84,85,0,
25,0,86,2,
57,86,87,0,
87,0,88,2,
57,0,89,2,
86,0,90,2,
89,90,91,0,
91,0,92,2,
24,0,93,2,
92,93,94,0,
94,56,95,0,
95,0,96,2,
88,96,97,0,
97,0,98,2,
58,0,99,2,
26,99,100,0,
100,0,101,2,
59,0,102,2,
27,102,103,0,
103,0,104,2,
101,104,105,0,
105,0,106,2,
106,0,107,2,
98,107,108,0,
108,0,109,2,
27,0,110,2,
59,110,111,0,
111,0,112,2,
109,112,113,0,
26,0,114,2,
104,114,115,0,
58,115,116,0,
116,0,117,2,
113,117,118,0,
118,0,119,2,
81,0,120,2,
73,120,121,0,
60,0,122,2,
28,122,123,0,
123,0,124,2,
121,124,125,0,
119,125,126,0,
126,0,127,2,
106,0,128,2,
125,128,129,0,
56,0,130,2,
24,130,131,0,
131,0,132,2,
92,132,133,0,
129,133,134,0,
50,0,135,2,
18,135,136,0,
136,0,137,2,
51,0,138,2,
19,138,139,0,
139,0,140,2,
137,140,141,0,
141,0,142,2,
142,0,143,2,
134,143,144,0,
53,0,145,2,
21,145,146,0,
146,0,147,2,
52,0,148,2,
20,148,149,0,
149,0,150,2,
147,150,151,0,
54,0,152,2,
22,152,153,0,
153,0,154,2,
55,0,155,2,
23,155,156,0,
156,0,157,2,
154,157,158,0,
158,0,159,2,
159,0,160,2,
151,160,161,0,
161,0,162,2,
162,0,163,2,
144,163,164,0,
49,0,165,2,
17,165,166,0,
166,0,167,2,
15,0,168,2,
47,168,169,0,
169,0,170,2,
13,0,171,2,
45,171,172,0,
172,0,173,2,
45,0,174,2,
13,174,175,0,
175,0,176,2,
12,0,177,2,
176,177,178,0,
44,178,179,0,
179,0,180,2,
173,180,181,0,
181,0,182,2,
46,0,183,2,
14,183,184,0,
184,0,185,2,
47,0,186,2,
15,186,187,0,
187,0,188,2,
185,188,189,0,
189,0,190,2,
190,0,191,2,
182,191,192,0,
192,0,193,2,
170,193,194,0,
14,0,195,2,
188,195,196,0,
46,196,197,0,
197,0,198,2,
9,0,199,2,
41,199,200,0,
200,0,201,2,
41,0,202,2,
9,202,203,0,
203,0,204,2,
8,0,205,2,
204,205,206,0,
40,206,207,0,
207,0,208,2,
201,208,209,0,
209,0,210,2,
42,0,211,2,
10,211,212,0,
212,0,213,2,
43,0,214,2,
11,214,215,0,
215,0,216,2,
213,216,217,0,
217,0,218,2,
218,0,219,2,
210,219,220,0,
220,0,221,2,
11,0,222,2,
43,222,223,0,
223,0,224,2,
221,224,225,0,
10,0,226,2,
216,226,227,0,
42,227,228,0,
228,0,229,2,
225,229,230,0,
230,0,231,2,
44,0,232,2,
12,232,233,0,
233,0,234,2,
176,234,235,0,
190,0,236,2,
235,236,237,0,
231,237,238,0,
238,0,239,2,
198,239,240,0,
218,0,241,2,
237,241,242,0,
40,0,243,2,
8,243,244,0,
244,0,245,2,
204,245,246,0,
5,0,247,2,
37,247,248,0,
248,0,249,2,
37,0,250,2,
5,250,251,0,
251,0,252,2,
4,0,253,2,
252,253,254,0,
36,254,255,0,
255,0,256,2,
249,256,257,0,
257,0,258,2,
38,0,259,2,
6,259,260,0,
260,0,261,2,
39,0,262,2,
7,262,263,0,
263,0,264,2,
261,264,265,0,
265,0,266,2,
266,0,267,2,
258,267,268,0,
268,0,269,2,
7,0,270,2,
39,270,271,0,
271,0,272,2,
269,272,273,0,
6,0,274,2,
264,274,275,0,
275,38,276,0,
276,0,277,2,
35,0,278,2,
3,0,279,2,
279,0,280,2,
278,280,281,0,
281,0,282,2,
34,0,283,2,
2,283,284,0,
284,0,285,2,
282,285,286,0,
1,0,287,2,
33,287,288,0,
288,0,289,2,
33,0,290,2,
1,290,291,0,
291,0,292,2,
0,0,293,2,
292,293,294,0,
32,294,295,0,
295,0,296,2,
289,296,297,0,
297,0,298,2,
286,298,299,0,
299,0,300,2,
35,279,301,0,
301,0,302,2,
300,302,303,0,
2,0,304,2,
282,304,305,0,
34,305,306,0,
306,0,307,2,
303,307,308,0,
308,0,309,2,
266,0,310,2,
309,310,311,0,
36,0,312,2,
4,312,313,0,
313,0,314,2,
252,314,315,0,
311,315,316,0,
316,0,317,2,
277,317,318,0,
273,318,319,0,
319,0,320,2,
246,320,321,0,
242,321,322,0,
322,0,323,2,
240,323,324,0,
194,324,325,0,
325,0,326,2,
167,326,327,0,
48,0,328,2,
16,328,329,0,
329,0,330,2,
327,330,331,0,
164,331,332,0,
332,0,333,2,
127,333,334,0,
21,0,335,2,
53,335,336,0,
336,0,337,2,
20,0,338,2,
147,338,339,0,
52,339,340,0,
340,0,341,2,
337,341,342,0,
342,0,343,2,
159,0,344,2,
343,344,345,0,
345,0,346,2,
23,0,347,2,
55,347,348,0,
348,0,349,2,
346,349,350,0,
22,0,351,2,
157,351,352,0,
352,54,353,0,
353,0,354,2,
17,0,355,2,
49,355,356,0,
356,0,357,2,
16,0,358,2,
167,358,359,0,
48,359,360,0,
360,0,361,2,
357,361,362,0,
362,0,363,2,
142,0,364,2,
363,364,365,0,
365,0,366,2,
19,0,367,2,
51,367,368,0,
368,0,369,2,
366,369,370,0,
18,0,371,2,
140,371,372,0,
372,50,373,0,
373,0,374,2,
370,374,375,0,
375,0,376,2,
162,0,377,2,
376,377,378,0,
378,0,379,2,
354,379,380,0,
350,380,381,0,
381,0,382,2,
382,134,383,0,
383,0,384,2,
334,384,385,0,
85,385,386,0,
386,0,387,2,
56,24,388,1,
387,388,389,0,
56,389,390,1,
390,0,391,2,
24,56,392,1,
387,392,393,0,
24,393,394,1,
391,394,395,1,
347,155,396,1,
387,396,397,0,
347,397,398,1,
398,0,399,2,
155,347,400,1,
387,400,401,0,
155,401,402,1,
399,402,403,1,
399,402,404,0,
403,404,405,1,
405,395,406,1,
405,394,407,1,
395,407,408,0,
394,408,409,1,
89,86,410,1,
387,410,411,0,
89,411,412,1,
86,89,413,1,
387,413,414,0,
86,414,415,1,
415,0,416,2,
412,416,417,1,
409,417,418,1,
409,416,419,1,
417,419,420,0,
416,420,421,1,
99,114,422,1,
387,422,423,0,
99,423,424,1,
114,99,425,1,
387,425,426,0,
114,426,427,1,
427,0,428,2,
424,428,429,1,
421,429,430,1,
421,428,431,1,
429,431,432,0,
428,432,433,1,
102,110,434,1,
387,434,435,0,
102,435,436,1,
110,102,437,1,
387,437,438,0,
110,438,439,1,
439,0,440,2,
436,440,441,1,
433,441,442,1,
433,440,443,1,
441,443,444,0,
440,444,445,1,
122,74,446,1,
387,446,447,0,
122,447,448,1,
74,122,449,1,
387,449,450,0,
74,450,451,1,
451,0,452,2,
448,452,453,1,
445,453,454,1,
445,452,455,1,
453,455,456,0,
452,456,457,1,
70,67,458,1,
387,458,459,0,
70,459,460,1,
67,70,461,1,
387,461,462,0,
67,462,463,1,
463,0,464,2,
460,464,465,1,
457,465,466,1,
457,464,467,1,
465,467,468,0,
464,468,469,1,
62,0,470,2,
470,64,471,1,
387,471,472,0,
470,472,473,1,
470,64,474,0,
474,0,475,2,
473,475,476,1,
469,476,477,1,
31,63,478,1,
387,478,479,0,
31,479,480,1,
480,63,481,1,
481,0,482,2,
480,31,483,1,
483,0,484,2,
482,484,485,0,
387,0,486,2,
10,42,487,1,
486,487,488,0,
10,488,489,1,
402,399,490,1,
490,0,491,2,
11,43,492,1,
486,492,493,0,
11,493,494,1,
489,494,495,1,
491,495,496,0,
489,496,497,1,
406,0,498,2,
41,9,499,1,
387,499,500,0,
41,500,501,1,
491,0,502,2,
8,40,503,1,
486,503,504,0,
8,504,505,1,
501,505,506,1,
502,506,507,0,
501,507,508,1,
497,508,509,1,
498,509,510,0,
497,510,511,1,
15,47,512,1,
486,512,513,0,
15,513,514,1,
14,46,515,1,
486,515,516,0,
14,516,517,1,
514,517,518,1,
502,518,519,0,
514,519,520,1,
45,13,521,1,
387,521,522,0,
45,522,523,1,
12,44,524,1,
486,524,525,0,
12,525,526,1,
523,526,527,1,
502,527,528,0,
523,528,529,1,
520,529,530,1,
498,530,531,0,
520,531,532,1,
511,532,533,1,
418,533,534,0,
511,534,535,1,
430,0,536,2,
7,39,537,1,
486,537,538,0,
7,538,539,1,
6,38,540,1,
486,540,541,0,
6,541,542,1,
539,542,543,1,
502,543,544,0,
539,544,545,1,
5,37,546,1,
486,546,547,0,
5,547,548,1,
4,36,549,1,
486,549,550,0,
4,550,551,1,
548,551,552,1,
502,552,553,0,
548,553,554,1,
545,554,555,1,
498,555,556,0,
545,556,557,1,
418,0,558,2,
283,304,559,1,
387,559,560,0,
283,560,561,1,
278,279,562,1,
387,562,563,0,
278,563,564,1,
561,564,565,1,
491,565,566,0,
561,566,567,1,
290,287,568,1,
387,568,569,0,
290,569,570,1,
32,0,571,1,
387,571,572,0,
32,572,573,1,
573,0,574,2,
570,574,575,1,
502,575,576,0,
570,576,577,1,
567,577,578,1,
498,578,579,0,
567,579,580,1,
580,0,581,2,
557,581,582,1,
558,582,583,0,
557,583,584,1,
535,584,585,1,
536,585,586,0,
535,586,587,1,
19,51,588,1,
486,588,589,0,
19,589,590,1,
18,50,591,1,
486,591,592,0,
18,592,593,1,
590,593,594,1,
502,594,595,0,
590,595,596,1,
49,17,597,1,
387,597,598,0,
49,598,599,1,
16,48,600,1,
486,600,601,0,
16,601,602,1,
599,602,603,1,
502,603,604,0,
599,604,605,1,
596,605,606,1,
498,606,607,0,
596,607,608,1,
53,21,609,1,
387,609,610,0,
53,610,611,1,
20,52,612,1,
486,612,613,0,
20,613,614,1,
611,614,615,1,
502,615,616,0,
611,616,617,1,
22,54,618,1,
486,618,619,0,
22,619,620,1,
620,491,621,1,
620,491,622,0,
621,622,623,1,
617,623,624,1,
406,624,625,0,
617,625,626,1,
608,626,627,1,
418,627,628,0,
608,628,629,1,
430,0,630,2,
629,630,631,0,
587,631,632,1,
442,632,633,0,
587,633,634,1,
477,466,635,1,
477,466,636,0,
635,636,637,1,
637,0,638,2,
454,0,639,2,
638,639,640,0,
634,640,641,0,
402,424,642,0,
412,448,643,0,
642,643,644,0,
436,473,645,0,
460,391,646,0,
645,646,647,0,
644,647,648,0,
648,0,649,2,
475,440,650,0,
650,394,651,0,
452,464,652,0,
428,416,653,0,
652,653,654,0,
651,654,655,0,
398,0,656,2,
655,656,657,0,
657,0,658,2,
649,658,659,0,
485,0,660,2,
660,0,661,2,
659,661,662,0,
662,0,663,2,
485,663,664,1,
641,664,665,0,
485,665,666,1,
659,485,667,1,
659,485,668,0,
667,668,669,1,
666,669,670,0,
670,0,671,2,
0,32,672,1,
387,672,673,0,
0,673,674,1,
671,674,675,1,
442,0,676,2,
430,0,677,2,
558,677,678,0,
502,0,679,2,
406,679,680,0,
680,0,681,2,
678,681,682,0,
682,0,683,2,
683,0,684,2,
676,684,685,0,
685,0,686,2,
573,686,687,0,
687,0,688,2,
676,498,689,0,
689,0,690,2,
494,690,691,0,
691,0,692,2,
501,0,693,2,
692,693,694,0,
694,0,695,2,
558,676,696,0,
696,0,697,2,
442,430,698,1,
442,430,699,0,
698,699,700,1,
700,0,701,2,
701,0,702,2,
697,702,703,0,
695,703,704,0,
704,0,705,2,
688,705,706,0,
418,0,707,2,
701,707,708,0,
708,0,709,2,
570,0,710,2,
709,710,711,0,
711,0,712,2,
536,681,713,0,
713,0,714,2,
678,0,715,2,
714,715,716,0,
716,0,717,2,
676,717,718,0,
718,0,719,2,
719,551,720,0,
720,0,721,2,
712,721,722,0,
536,498,723,0,
723,0,724,2,
590,724,725,0,
725,0,726,2,
599,0,727,2,
726,727,728,0,
728,0,729,2,
678,0,730,2,
442,730,731,0,
729,731,732,0,
732,0,733,2,
722,733,734,0,
706,734,735,0,
498,558,736,0,
611,0,737,2,
736,737,738,0,
738,0,739,2,
430,739,740,0,
740,0,741,2,
523,0,742,2,
741,742,743,0,
683,602,744,0,
744,0,745,2,
717,0,746,2,
614,746,747,0,
747,0,748,2,
745,748,749,0,
743,749,750,0,
750,0,751,2,
442,751,752,0,
752,0,753,2,
502,498,754,0,
701,754,755,0,
755,0,756,2,
709,756,757,0,
561,0,758,2,
757,758,759,0,
759,0,760,2,
753,760,761,0,
558,689,762,0,
762,0,763,2,
702,763,764,0,
764,0,765,2,
765,0,766,2,
539,766,767,0,
767,0,768,2,
702,548,769,0,
769,0,770,2,
768,770,771,0,
564,0,772,2,
701,498,773,0,
773,0,774,2,
709,774,775,0,
772,775,776,0,
776,0,777,2,
771,777,778,0,
761,778,779,0,
735,779,780,0,
418,491,781,1,
418,491,782,0,
781,782,783,1,
783,0,784,2,
784,689,785,0,
785,0,786,2,
786,702,787,0,
787,542,788,0,
788,0,789,2,
676,784,790,0,
790,0,791,2,
505,791,792,0,
765,0,793,2,
792,793,794,0,
794,0,795,2,
789,795,796,0,
558,723,797,0,
797,0,798,2,
514,798,799,0,
442,799,800,0,
800,0,801,2,
703,526,802,0,
502,676,803,0,
803,0,804,2,
689,0,805,2,
804,805,806,0,
802,806,807,0,
807,0,808,2,
801,808,809,0,
502,689,810,0,
810,0,811,2,
489,811,812,0,
812,703,813,0,
813,0,814,2,
809,814,815,0,
796,815,816,0,
502,723,817,0,
817,0,818,2,
593,818,819,0,
819,731,820,0,
820,0,821,2,
430,442,822,0,
784,0,823,2,
620,823,824,0,
822,824,825,0,
825,0,826,2,
821,826,827,0,
784,723,828,0,
828,0,829,2,
517,829,830,0,
442,830,831,0,
831,0,832,2,
827,832,833,0,
833,640,834,0,
816,834,835,0,
780,835,836,0,
836,0,837,2,
837,659,838,0,
838,0,839,2,
839,485,840,1,
660,840,841,0,
529,497,842,1,
498,842,843,0,
529,843,844,1,
508,545,845,1,
498,845,846,0,
508,846,847,1,
844,847,848,1,
558,848,849,0,
844,849,850,1,
567,0,851,2,
851,554,852,1,
406,852,853,0,
851,853,854,1,
577,0,855,2,
406,855,856,0,
854,856,857,1,
558,857,858,0,
854,858,859,1,
850,859,860,1,
536,860,861,0,
850,861,862,1,
617,596,863,1,
498,863,864,0,
617,864,865,1,
605,520,866,1,
498,866,867,0,
605,867,868,1,
865,868,869,1,
558,869,870,0,
865,870,871,1,
623,498,872,0,
418,0,873,2,
872,873,874,0,
871,874,875,1,
430,875,876,0,
871,876,877,1,
862,877,878,1,
442,878,879,0,
862,879,880,1,
880,640,881,0,
485,663,882,1,
881,882,883,0,
485,883,884,1,
884,669,885,0,
885,0,886,2,
841,886,887,0,
501,489,888,1,
491,888,889,0,
501,889,890,1,
505,539,891,1,
502,891,892,0,
505,892,893,1,
890,893,894,1,
498,894,895,0,
890,895,896,1,
523,517,897,1,
491,897,898,0,
523,898,899,1,
494,526,900,1,
491,900,901,0,
494,901,902,1,
899,902,903,1,
498,903,904,0,
899,904,905,1,
896,905,906,1,
418,906,907,0,
896,907,908,1,
561,570,909,1,
502,909,910,0,
561,910,911,1,
911,0,912,2,
491,573,913,0,
912,913,914,1,
498,914,915,0,
912,915,916,1,
542,548,917,1,
502,917,918,0,
542,918,919,1,
551,772,920,1,
502,920,921,0,
551,921,922,1,
919,922,923,1,
498,923,924,0,
919,924,925,1,
916,925,926,1,
418,926,927,0,
916,927,928,1,
908,928,929,1,
536,929,930,0,
908,930,931,1,
620,611,932,1,
502,932,933,0,
620,933,934,1,
590,614,935,1,
491,935,936,0,
590,936,937,1,
934,937,938,1,
498,938,939,0,
934,939,940,1,
593,599,941,1,
502,941,942,0,
593,942,943,1,
602,514,944,1,
502,944,945,0,
602,945,946,1,
943,946,947,1,
498,947,948,0,
943,948,949,1,
940,949,950,1,
558,950,951,0,
940,951,952,1,
502,498,953,0,
953,0,954,2,
418,954,955,1,
418,954,956,0,
955,956,957,1,
957,0,958,2,
952,958,959,1,
430,959,960,0,
952,960,961,1,
931,961,962,1,
442,962,963,0,
931,963,964,1,
964,640,965,0,
485,663,966,1,
965,966,967,0,
485,967,968,1,
968,669,969,0,
969,0,970,2,
887,970,971,0,
971,675,972,1,
971,674,973,1,
675,973,974,0,
674,974,975,1,
902,890,976,1,
498,976,977,0,
902,977,978,1,
946,899,979,1,
498,979,980,0,
946,980,981,1,
978,981,982,1,
418,982,983,0,
978,983,984,1,
893,919,985,1,
498,985,986,0,
893,986,987,1,
912,922,988,1,
406,988,989,0,
912,989,990,1,
987,990,991,1,
558,991,992,0,
987,992,993,1,
984,993,994,1,
536,994,995,0,
984,995,996,1,
502,934,997,1,
498,997,998,0,
502,998,999,1,
937,943,1000,1,
498,1000,1001,0,
937,1001,1002,1,
999,1002,1003,1,
558,1003,1004,0,
999,1004,1005,1,
430,0,1006,2,
1005,1006,1007,0,
996,1007,1008,1,
442,1008,1009,0,
996,1009,1010,1,
1010,640,1011,0,
485,663,1012,1,
1011,1012,1013,0,
485,1013,1014,1,
1014,669,1015,0,
1015,0,1016,2,
33,1,1017,1,
486,1017,1018,0,
33,1018,1019,1,
1016,1019,1020,1,
975,1020,1021,1,
975,1019,1022,1,
1020,1022,1023,0,
1019,1023,1024,1,
844,868,1025,1,
418,1025,1026,0,
844,1026,1027,1,
854,847,1028,1,
418,1028,1029,0,
854,1029,1030,1,
1027,1030,1031,1,
536,1031,1032,0,
1027,1032,1033,1,
865,872,1034,1,
418,1034,1035,0,
865,1035,1036,1,
430,0,1037,2,
1036,1037,1038,0,
1033,1038,1039,1,
442,1039,1040,0,
1033,1040,1041,1,
1041,640,1042,0,
485,663,1043,1,
1042,1043,1044,0,
485,1044,1045,1,
1045,669,1046,0,
1046,0,1047,2,
34,2,1048,1,
486,1048,1049,0,
34,1049,1050,1,
1047,1050,1051,1,
1024,1051,1052,1,
1024,1050,1053,1,
1051,1053,1054,0,
1050,1054,1055,1,
940,0,1056,2,
954,1056,1057,1,
558,1057,1058,0,
954,1058,1059,1,
1059,430,1060,1,
1059,430,1061,0,
1060,1061,1062,1,
949,905,1063,1,
558,1063,1064,0,
949,1064,1065,1,
925,896,1066,1,
418,1066,1067,0,
925,1067,1068,1,
1065,1068,1069,1,
536,1069,1070,0,
1065,1070,1071,1,
1071,0,1072,2,
1062,1072,1073,1,
676,1073,1074,0,
1062,1074,1075,1,
1075,0,1076,2,
640,1076,1077,0,
485,663,1078,1,
1077,1078,1079,0,
485,1079,1080,1,
1080,669,1081,0,
1081,0,1082,2,
35,3,1083,1,
486,1083,1084,0,
35,1084,1085,1,
1082,1085,1086,1,
1055,1086,1087,1,
1055,1085,1088,1,
1086,1088,1089,0,
1085,1089,1090,1,
532,608,1091,1,
418,1091,1092,0,
532,1092,1093,1,
557,511,1094,1,
418,1094,1095,0,
557,1095,1096,1,
1093,1096,1097,1,
536,1097,1098,0,
1093,1098,1099,1,
626,558,1100,0,
430,0,1101,2,
1100,1101,1102,0,
1099,1102,1103,1,
442,1103,1104,0,
1099,1104,1105,1,
1105,640,1106,0,
485,663,1107,1,
1106,1107,1108,0,
485,1108,1109,1,
1109,669,1110,0,
1110,0,1111,2,
36,4,1112,1,
486,1112,1113,0,
36,1113,1114,1,
1111,1114,1115,1,
1090,1115,1116,1,
1090,1114,1117,1,
1115,1117,1118,0,
1114,1118,1119,1,
981,1002,1120,1,
418,1120,1121,0,
981,1121,1122,1,
987,978,1123,1,
418,1123,1124,0,
987,1124,1125,1,
1122,1125,1126,1,
536,1126,1127,0,
1122,1127,1128,1,
418,0,1129,2,
999,1129,1130,0,
430,0,1131,2,
1130,1131,1132,0,
1128,1132,1133,1,
442,1133,1134,0,
1128,1134,1135,1,
1135,640,1136,0,
485,663,1137,1,
1136,1137,1138,0,
485,1138,1139,1,
1139,669,1140,0,
1140,0,1141,2,
37,5,1142,1,
486,1142,1143,0,
37,1143,1144,1,
1141,1144,1145,1,
1119,1145,1146,1,
1119,1144,1147,1,
1145,1147,1148,0,
1144,1148,1149,1,
536,874,1150,0,
1150,0,1151,2,
850,871,1152,1,
430,1152,1153,0,
850,1153,1154,1,
1154,0,1155,2,
1151,1155,1156,1,
676,1156,1157,0,
1151,1157,1158,1,
1158,0,1159,2,
640,1159,1160,0,
485,663,1161,1,
1160,1161,1162,0,
485,1162,1163,1,
1163,669,1164,0,
1164,0,1165,2,
38,6,1166,1,
486,1166,1167,0,
38,1167,1168,1,
1165,1168,1169,1,
1149,1169,1170,1,
1149,1168,1171,1,
1169,1171,1172,0,
1168,1172,1173,1,
952,908,1174,1,
536,1174,1175,0,
952,1175,1176,1,
958,536,1177,0,
1176,1177,1178,1,
442,1178,1179,0,
1176,1179,1180,1,
1180,640,1181,0,
485,663,1182,1,
1181,1182,1183,0,
485,1183,1184,1,
1184,669,1185,0,
1185,0,1186,2,
39,7,1187,1,
486,1187,1188,0,
39,1188,1189,1,
1186,1189,1190,1,
1173,1190,1191,1,
1173,1189,1192,1,
1190,1192,1193,0,
1189,1193,1194,1,
629,535,1195,1,
536,1195,1196,0,
629,1196,1197,1,
640,676,1198,0,
1197,1198,1199,0,
485,663,1200,1,
1199,1200,1201,0,
485,1201,1202,1,
1202,669,1203,0,
1203,0,1204,2,
40,8,1205,1,
486,1205,1206,0,
40,1206,1207,1,
1204,1207,1208,1,
1194,1208,1209,1,
1194,1207,1210,1,
1208,1210,1211,0,
1207,1211,1212,1,
1005,984,1213,1,
536,1213,1214,0,
1005,1214,1215,1,
1215,1198,1216,0,
485,663,1217,1,
1216,1217,1218,0,
485,1218,1219,1,
1219,669,1220,0,
1220,0,1221,2,
41,9,1222,1,
486,1222,1223,0,
41,1223,1224,1,
1221,1224,1225,1,
1212,1225,1226,1,
1212,1224,1227,1,
1225,1227,1228,0,
1224,1228,1229,1,
1036,1027,1230,1,
536,1230,1231,0,
1036,1231,1232,1,
1232,1198,1233,0,
485,663,1234,1,
1233,1234,1235,0,
485,1235,1236,1,
1236,669,1237,0,
1237,0,1238,2,
10,42,1239,1,
387,1239,1240,0,
10,1240,1241,1,
1238,1241,1242,1,
1229,1242,1243,1,
1229,1241,1244,1,
1242,1244,1245,0,
1241,1245,1246,1,
1065,0,1247,2,
1247,1059,1248,1,
430,1248,1249,0,
1247,1249,1250,1,
1250,0,1251,2,
1198,1251,1252,0,
485,663,1253,1,
1252,1253,1254,0,
485,1254,1255,1,
1255,669,1256,0,
1256,0,1257,2,
11,43,1258,1,
387,1258,1259,0,
11,1259,1260,1,
1257,1260,1261,1,
1246,1261,1262,1,
1246,1260,1263,1,
1261,1263,1264,0,
1260,1264,1265,1,
1093,1100,1266,1,
430,1266,1267,0,
1093,1267,1268,1,
1198,1268,1269,0,
485,663,1270,1,
1269,1270,1271,0,
485,1271,1272,1,
1272,669,1273,0,
1273,0,1274,2,
12,44,1275,1,
387,1275,1276,0,
12,1276,1277,1,
1274,1277,1278,1,
1265,1278,1279,1,
1265,1277,1280,1,
1278,1280,1281,0,
1277,1281,1282,1,
1130,1122,1283,1,
536,1283,1284,0,
1130,1284,1285,1,
1285,1198,1286,0,
485,663,1287,1,
1286,1287,1288,0,
485,1288,1289,1,
1289,669,1290,0,
1290,0,1291,2,
13,45,1292,1,
387,1292,1293,0,
13,1293,1294,1,
1291,1294,1295,1,
1282,1295,1296,1,
1282,1294,1297,1,
1295,1297,1298,0,
1294,1298,1299,1,
877,676,1300,0,
1300,640,1301,0,
485,663,1302,1,
1301,1302,1303,0,
485,1303,1304,1,
1304,669,1305,0,
1305,0,1306,2,
14,46,1307,1,
387,1307,1308,0,
14,1308,1309,1,
1306,1309,1310,1,
1299,1310,1311,1,
1299,1309,1312,1,
1310,1312,1313,0,
1309,1313,1314,1,
676,640,1315,0,
1315,961,1316,0,
485,663,1317,1,
1316,1317,1318,0,
485,1318,1319,1,
1319,669,1320,0,
1320,0,1321,2,
47,15,1322,1,
486,1322,1323,0,
47,1323,1324,1,
1321,1324,1325,1,
1314,1325,1326,1,
1314,1324,1327,1,
1325,1327,1328,0,
1324,1328,1329,1,
1198,631,1330,0,
485,663,1331,1,
1330,1331,1332,0,
485,1332,1333,1,
1333,669,1334,0,
1334,0,1335,2,
48,16,1336,1,
486,1336,1337,0,
48,1337,1338,1,
1335,1338,1339,1,
1329,1339,1340,1,
1329,1338,1341,1,
1339,1341,1342,0,
1338,1342,1343,1,
1198,1007,1344,0,
485,663,1345,1,
1344,1345,1346,0,
485,1346,1347,1,
1347,669,1348,0,
1348,0,1349,2,
49,17,1350,1,
486,1350,1351,0,
49,1351,1352,1,
1349,1352,1353,1,
1343,1353,1354,1,
1343,1352,1355,1,
1353,1355,1356,0,
1352,1356,1357,1,
1198,1038,1358,0,
485,663,1359,1,
1358,1359,1360,0,
485,1360,1361,1,
1361,669,1362,0,
1362,0,1363,2,
50,18,1364,1,
486,1364,1365,0,
50,1365,1366,1,
1363,1366,1367,1,
1357,1367,1368,1,
1357,1366,1369,1,
1367,1369,1370,0,
1366,1370,1371,1,
1062,0,1372,2,
1198,1372,1373,0,
485,663,1374,1,
1373,1374,1375,0,
485,1375,1376,1,
1376,669,1377,0,
1377,0,1378,2,
51,19,1379,1,
486,1379,1380,0,
51,1380,1381,1,
1378,1381,1382,1,
1371,1382,1383,1,
1371,1381,1384,1,
1382,1384,1385,0,
1381,1385,1386,1,
1198,1102,1387,0,
485,663,1388,1,
1387,1388,1389,0,
485,1389,1390,1,
1390,669,1391,0,
1391,0,1392,2,
52,20,1393,1,
486,1393,1394,0,
52,1394,1395,1,
1392,1395,1396,1,
1386,1396,1397,1,
1386,1395,1398,1,
1396,1398,1399,0,
1395,1399,1400,1,
1198,1132,1401,0,
485,663,1402,1,
1401,1402,1403,0,
485,1403,1404,1,
1404,669,1405,0,
1405,0,1406,2,
53,21,1407,1,
486,1407,1408,0,
53,1408,1409,1,
1406,1409,1410,1,
1400,1410,1411,1,
1400,1409,1412,1,
1410,1412,1413,0,
1409,1413,1414,1,
1151,0,1415,2,
1198,1415,1416,0,
485,663,1417,1,
1416,1417,1418,0,
485,1418,1419,1,
1419,669,1420,0,
1420,0,1421,2,
54,22,1422,1,
486,1422,1423,0,
54,1423,1424,1,
1421,1424,1425,1,
1414,1425,1426,1,
1414,1424,1427,1,
1425,1427,1428,0,
1424,1428,1429,1,
1296,0,1430,2,
1311,0,1431,2,
1430,1431,1432,0,
1326,0,1433,2,
1340,0,1434,2,
1433,1434,1435,0,
1432,1435,1436,0,
1279,1262,1437,1,
1279,1262,1438,0,
1437,1438,1439,1,
1226,1243,1440,1,
1226,1243,1441,0,
1440,1441,1442,1,
1439,1442,1443,1,
1439,1442,1444,0,
1443,1444,1445,1,
1445,0,1446,2,
1436,1446,1447,0,
1383,0,1448,2,
1397,0,1449,2,
1448,1449,1450,0,
1198,1177,1451,0,
485,663,1452,1,
1451,1452,1453,0,
485,1453,1454,1,
1454,669,1455,0,
1455,0,1456,2,
1456,1429,1457,1,
1457,0,1458,2,
1458,0,1459,2,
1429,1456,1460,1,
1429,1456,1461,0,
1460,1461,1462,1,
660,1462,1463,1,
1463,0,1464,2,
1459,1464,1465,0,
1465,0,1466,2,
1466,0,1467,2,
1450,1467,1468,0,
1368,0,1469,2,
1354,0,1470,2,
1469,1470,1471,0,
1471,0,1472,2,
1472,0,1473,2,
1468,1473,1474,0,
1411,0,1475,2,
1426,0,1476,2,
1475,1476,1477,0,
1474,1477,1478,0,
1478,0,1479,2,
1479,0,1480,2,
1447,1480,1481,0,
1481,0,1482,2,
1021,1052,1483,1,
1021,1052,1484,0,
1483,1484,1485,1,
1485,0,1486,2,
1087,1116,1487,1,
1087,1116,1488,0,
1487,1488,1489,1,
1489,0,1490,2,
1486,1490,1491,0,
1209,1191,1492,1,
1209,1191,1493,0,
1492,1493,1494,1,
1494,0,1495,2,
1146,1170,1496,1,
1146,1170,1497,0,
1496,1497,1498,1,
1498,0,1499,2,
1495,1499,1500,0,
1500,0,1501,2,
1501,0,1502,2,
1491,1502,1503,0,
1503,0,1504,2,
1445,0,1505,2,
1504,1505,1506,0,
1506,1436,1507,0,
1507,0,1508,2,
1479,0,1509,2,
1508,1509,1510,0,
1510,0,1511,2,
886,841,1512,1,
1426,0,1513,2,
1397,0,1514,2,
1311,0,1515,2,
970,887,1516,1,
1516,0,1517,2,
1512,1517,1518,0,
1518,0,1519,2,
972,0,1520,2,
1519,1520,1521,0,
1521,0,1522,2,
1021,0,1523,2,
1522,1523,1524,0,
1524,0,1525,2,
1052,0,1526,2,
1525,1526,1527,0,
1527,0,1528,2,
1087,0,1529,2,
1528,1529,1530,0,
1530,0,1531,2,
1116,0,1532,2,
1531,1532,1533,0,
1533,0,1534,2,
1146,0,1535,2,
1534,1535,1536,0,
1536,0,1537,2,
1170,0,1538,2,
1537,1538,1539,0,
1539,0,1540,2,
1191,0,1541,2,
1540,1541,1542,0,
1542,0,1543,2,
1209,0,1544,2,
1543,1544,1545,0,
1545,0,1546,2,
1226,0,1547,2,
1546,1547,1548,0,
1548,0,1549,2,
1243,0,1550,2,
1549,1550,1551,0,
1551,0,1552,2,
1262,0,1553,2,
1552,1553,1554,0,
1554,0,1555,2,
1279,0,1556,2,
1555,1556,1557,0,
1557,0,1558,2,
1430,1558,1559,0,
1559,0,1560,2,
1515,1560,1561,0,
1561,0,1562,2,
1433,1562,1563,0,
1563,0,1564,2,
1434,1564,1565,0,
1565,0,1566,2,
1470,1566,1567,0,
1567,0,1568,2,
1469,1568,1569,0,
1569,0,1570,2,
1448,1570,1571,0,
1571,0,1572,2,
1514,1572,1573,0,
1573,0,1574,2,
1475,1574,1575,0,
1575,0,1576,2,
1513,1576,1577,0,
1577,0,1578,2,
1459,1578,1579,0,
1579,0,1580,2,
1463,0,1581,2,
1580,1581,1582,0,
1582,0,1583,2,
1583,0,1584,2,
1584,0,1585,2,
1512,1585,1586,0,
1477,1466,1587,1,
1477,1466,1588,0,
1587,1588,1589,1,
972,1516,1590,1,
972,1516,1591,0,
1590,1591,1592,1,
1592,1486,1593,0,
1593,0,1594,2,
1594,1490,1595,0,
1595,0,1596,2,
1499,1596,1597,0,
1597,0,1598,2,
1495,1598,1599,0,
1599,0,1600,2,
1442,0,1601,2,
1600,1601,1602,0,
1602,0,1603,2,
1439,0,1604,2,
1603,1604,1605,0,
1605,0,1606,2,
1606,1432,1607,0,
1607,0,1608,2,
1608,1435,1609,0,
1609,0,1610,2,
1472,0,1611,2,
1610,1611,1612,0,
1612,0,1613,2,
1613,1468,1614,0,
1614,0,1615,2,
1589,1615,1616,0,
1586,1616,1617,0,
1491,1501,1618,1,
1491,1501,1619,0,
1618,1619,1620,1,
1445,0,1621,2,
1620,1621,1622,0,
1622,0,1623,2,
1623,1436,1624,0,
1624,0,1625,2,
1450,1625,1626,0,
1472,0,1627,2,
1626,1627,1628,0,
1628,0,1629,2,
1466,0,1630,2,
1629,1630,1631,0,
1477,1631,1632,0,
1632,0,1633,2,
972,1516,1634,1,
1584,1634,1635,0,
972,1635,1636,1,
1021,1052,1637,1,
1583,1637,1638,0,
1021,1638,1639,1,
1636,1639,1640,1,
1616,1640,1641,0,
1636,1641,1642,1,
1617,1642,1643,1,
1633,1643,1644,0,
1617,1644,1645,1,
1511,1645,1646,0,
1646,0,1647,2,
1647,0,1648,2,
1482,1648,1649,0,
1482,0,1650,2,
1512,1516,1651,1,
1583,1651,1652,0,
1512,1652,1653,1,
1021,972,1654,1,
1584,1654,1655,0,
1021,1655,1656,1,
1653,1656,1657,1,
1616,1657,1658,0,
1653,1658,1659,1,
1633,1659,1660,0,
1660,0,1661,2,
1661,0,1662,2,
1511,1662,1663,0,
1663,0,1664,2,
1650,1664,1665,1,
1650,1664,1666,0,
1665,1666,1667,1,
1667,0,1668,2,
1649,1668,1669,1,
1649,1668,1670,0,
1052,1087,1671,1,
1583,1671,1672,0,
1052,1672,1673,1,
1616,0,1674,2,
1673,1656,1675,1,
1674,1675,1676,0,
1673,1676,1677,1,
1674,0,1678,2,
1653,1678,1679,0,
1677,1679,1680,1,
1632,1680,1681,0,
1677,1681,1682,1,
1511,1682,1683,0,
1683,0,1684,2,
1684,0,1685,2,
1482,1685,1686,0,
1686,1670,1687,1,
1686,1670,1688,0,
1116,1087,1689,1,
1584,1689,1690,0,
1116,1690,1691,1,
1691,1639,1692,1,
1674,1692,1693,0,
1691,1693,1694,1,
1586,1636,1695,1,
1616,1695,1696,0,
1586,1696,1697,1,
1694,1697,1698,1,
1632,1698,1699,0,
1694,1699,1700,1,
1511,1700,1701,0,
1701,0,1702,2,
1702,0,1703,2,
1482,1703,1704,0,
1704,1688,1705,1,
1704,1688,1706,0,
1116,1146,1707,1,
1583,1707,1708,0,
1116,1708,1709,1,
1673,1709,1710,1,
1616,1710,1711,0,
1673,1711,1712,1,
1712,1659,1713,1,
1632,1713,1714,0,
1712,1714,1715,1,
1511,1715,1716,0,
1716,0,1717,2,
1717,0,1718,2,
1482,1718,1719,0,
1719,1706,1720,1,
1719,1706,1721,0,
1633,1617,1722,0,
1722,0,1723,2,
1146,1170,1724,1,
1583,1724,1725,0,
1146,1725,1726,1,
1726,1691,1727,1,
1674,1727,1728,0,
1726,1728,1729,1,
1642,1729,1730,1,
1633,1730,1731,0,
1642,1731,1732,1,
1732,0,1733,2,
1723,1733,1734,1,
1511,1734,1735,0,
1723,1735,1736,1,
1650,1736,1737,1,
1650,1736,1738,0,
1737,1738,1739,1,
1739,0,1740,2,
1740,1721,1741,1,
1740,1721,1742,0,
1633,1679,1743,0,
1743,0,1744,2,
1170,1191,1745,1,
1583,1745,1746,0,
1170,1746,1747,1,
1747,1709,1748,1,
1674,1748,1749,0,
1747,1749,1750,1,
1677,1750,1751,1,
1633,1751,1752,0,
1677,1752,1753,1,
1753,0,1754,2,
1744,1754,1755,1,
1511,1755,1756,0,
1744,1756,1757,1,
1650,1757,1758,1,
1650,1757,1759,0,
1758,1759,1760,1,
1760,0,1761,2,
1761,1742,1762,1,
1761,1742,1763,0,
1191,1209,1764,1,
1583,1764,1765,0,
1191,1765,1766,1,
1726,1766,1767,1,
1616,1767,1768,0,
1726,1768,1769,1,
1694,1769,1770,1,
1633,1770,1771,0,
1694,1771,1772,1,
1697,1633,1773,0,
1772,1773,1774,1,
1510,1774,1775,0,
1772,1775,1776,1,
1776,1482,1777,0,
1777,1763,1778,1,
1777,1763,1779,0,
1226,1209,1780,1,
1584,1780,1781,0,
1226,1781,1782,1,
1782,1747,1783,1,
1674,1783,1784,0,
1782,1784,1785,1,
1712,1785,1786,1,
1633,1786,1787,0,
1712,1787,1788,1,
1788,0,1789,2,
1661,1789,1790,1,
1511,1790,1791,0,
1661,1791,1792,1,
1792,0,1793,2,
1793,1779,1794,1,
1793,1779,1795,0,
1226,1243,1796,1,
1583,1796,1797,0,
1226,1797,1798,1,
1766,1798,1799,1,
1616,1799,1800,0,
1766,1800,1801,1,
1729,1801,1802,1,
1633,1802,1803,0,
1729,1803,1804,1,
1804,1645,1805,1,
1510,1805,1806,0,
1804,1806,1807,1,
1807,1795,1808,1,
1807,1795,1809,0,
1243,1262,1810,1,
1583,1810,1811,0,
1243,1811,1812,1,
1812,1782,1813,1,
1674,1813,1814,0,
1812,1814,1815,1,
1815,1750,1816,1,
1632,1816,1817,0,
1815,1817,1818,1,
1682,1818,1819,1,
1511,1819,1820,0,
1682,1820,1821,1,
1821,1809,1822,1,
1821,1809,1823,0,
1262,1279,1824,1,
1583,1824,1825,0,
1262,1825,1826,1,
1826,1798,1827,1,
1674,1827,1828,0,
1826,1828,1829,1,
1769,1829,1830,1,
1633,1830,1831,0,
1769,1831,1832,1,
1700,1832,1833,1,
1511,1833,1834,0,
1700,1834,1835,1,
1835,1823,1836,1,
1835,1823,1837,0,
1279,1296,1838,1,
1583,1838,1839,0,
1279,1839,1840,1,
1840,1812,1841,1,
1674,1841,1842,0,
1840,1842,1843,1,
1843,1785,1844,1,
1632,1844,1845,0,
1843,1845,1846,1,
1715,1846,1847,1,
1511,1847,1848,0,
1715,1848,1849,1,
1849,1837,1850,1,
1849,1837,1851,0,
1801,0,1852,2,
1430,1515,1853,1,
1583,1853,1854,0,
1430,1854,1855,1,
1826,0,1856,2,
1855,1856,1857,1,
1674,1857,1858,0,
1855,1858,1859,1,
1852,1859,1860,1,
1633,1860,1861,0,
1852,1861,1862,1,
1862,1733,1863,1,
1510,1863,1864,0,
1862,1864,1865,1,
1510,1723,1866,1,
1510,1723,1867,0,
1866,1867,1868,1,
1868,0,1869,2,
1650,1869,1870,0,
1870,0,1871,2,
1865,1871,1872,0,
1872,0,1873,2,
1873,1851,1874,1,
1873,1851,1875,0,
1510,1744,1876,1,
1510,1744,1877,0,
1876,1877,1878,1,
1878,0,1879,2,
1650,1879,1880,0,
1880,0,1881,2,
1311,1326,1882,1,
1583,1882,1883,0,
1311,1883,1884,1,
1884,1840,1885,1,
1674,1885,1886,0,
1884,1886,1887,1,
1815,1887,1888,1,
1633,1888,1889,0,
1815,1889,1890,1,
1890,1753,1891,1,
1510,1891,1892,0,
1890,1892,1893,1,
1893,0,1894,2,
1881,1894,1895,0,
1895,0,1896,2,
1896,1875,1897,1,
1896,1875,1898,0,
1829,0,1899,2,
1434,1433,1900,1,
1584,1900,1901,0,
1434,1901,1902,1,
1902,1855,1903,1,
1674,1903,1904,0,
1902,1904,1905,1,
1899,1905,1906,1,
1633,1906,1907,0,
1899,1907,1908,1,
1772,0,1909,2,
1908,1909,1910,1,
1510,1910,1911,0,
1908,1911,1912,1,
1510,0,1913,2,
1773,1913,1914,0,
1914,0,1915,2,
1915,0,1916,2,
1650,1916,1917,0,
1917,0,1918,2,
1912,1918,1919,0,
1919,0,1920,2,
1920,1898,1921,1,
1920,1898,1922,0,
1664,0,1923,2,
1650,1923,1924,0,
1924,0,1925,2,
1789,0,1926,2,
1510,1926,1927,0,
1927,0,1928,2,
1925,1928,1929,0,
1470,1434,1930,1,
1584,1930,1931,0,
1470,1931,1932,1,
1932,0,1933,2,
1884,1933,1934,1,
1616,1934,1935,0,
1884,1935,1936,1,
1843,1936,1937,1,
1633,1937,1938,0,
1843,1938,1939,1,
1939,0,1940,2,
1929,1940,1941,0,
1941,0,1942,2,
1942,1922,1943,1,
1942,1922,1944,0,
1647,0,1945,2,
1650,1945,1946,0,
1946,0,1947,2,
1511,0,1948,2,
1804,1948,1949,0,
1949,0,1950,2,
1947,1950,1951,0,
1469,1470,1952,1,
1584,1952,1953,0,
1469,1953,1954,1,
1954,1902,1955,1,
1674,1955,1956,0,
1954,1956,1957,1,
1957,1859,1958,1,
1632,1958,1959,0,
1957,1959,1960,1,
1951,1960,1961,0,
1961,0,1962,2,
1962,1944,1963,1,
1962,1944,1964,0,
1684,0,1965,2,
1650,1965,1966,0,
1966,0,1967,2,
1510,1818,1968,0,
1968,0,1969,2,
1967,1969,1970,0,
1448,1469,1971,1,
1584,1971,1972,0,
1448,1972,1973,1,
1973,1932,1974,1,
1674,1974,1975,0,
1973,1975,1976,1,
1976,0,1977,2,
1887,1977,1978,1,
1633,1978,1979,0,
1887,1979,1980,1,
1980,0,1981,2,
1970,1981,1982,0,
1982,0,1983,2,
1983,1964,1984,1,
1983,1964,1985,0,
1702,0,1986,2,
1650,1986,1987,0,
1987,0,1988,2,
1510,1832,1989,0,
1989,0,1990,2,
1988,1990,1991,0,
1448,1514,1992,1,
1583,1992,1993,0,
1448,1993,1994,1,
1994,1954,1995,1,
1674,1995,1996,0,
1994,1996,1997,1,
1997,1905,1998,1,
1632,1998,1999,0,
1997,1999,2000,1,
1991,2000,2001,0,
2001,0,2002,2,
2002,1985,2003,1,
2002,1985,2004,0,
1514,1475,2005,1,
1583,2005,2006,0,
1514,2006,2007,1,
1973,2007,2008,1,
1616,2008,2009,0,
1973,2009,2010,1,
1717,0,2011,2,
1650,2011,2012,0,
2012,0,2013,2,
2010,2013,2014,0,
1510,1846,2015,0,
2015,0,2016,2,
1632,1936,2017,0,
2017,0,2018,2,
2016,2018,2019,0,
2014,2019,2020,0,
2020,0,2021,2,
2021,2004,2022,1,
2021,2004,2023,0,
1475,1513,2024,1,
1583,2024,2025,0,
1475,2025,2026,1,
1994,2026,2027,1,
1616,2027,2028,0,
1994,2028,2029,1,
1736,0,2030,2,
1650,2030,2031,0,
2031,0,2032,2,
2029,2032,2033,0,
1862,1511,2034,1,
1862,1511,2035,0,
2034,2035,2036,1,
1957,1633,2037,1,
1957,1633,2038,0,
2037,2038,2039,1,
2036,2039,2040,0,
2033,2040,2041,0,
2041,0,2042,2,
2042,2023,2043,1,
2042,2023,2044,0,
1397,1411,2045,0,
2045,1426,2046,0,
1368,1354,2047,0,
2047,1383,2048,0,
2046,2048,2049,0,
1311,1326,2050,0,
2050,1340,2051,0,
1279,1262,2052,0,
2052,1296,2053,0,
2051,2053,2054,0,
2049,2054,2055,0,
1170,1146,2056,0,
1879,1869,2057,1,
1879,1869,2058,0,
2057,2058,2059,1,
2059,0,2060,2,
840,660,2061,1,
1668,2061,2062,1,
1668,2061,2063,0,
2062,2063,2064,1,
2064,0,2065,2,
2060,2065,2066,0,
2066,0,2067,2,
2067,1482,2068,0,
1915,0,2069,2,
2068,2069,2070,0,
2070,0,2071,2,
2071,0,2072,2,
2056,2072,2073,0,
1116,1243,2074,0,
1087,2074,2075,0,
2073,2075,2076,0,
1191,1209,2077,0,
1226,2077,2078,0,
1052,972,2079,0,
2079,1021,2080,0,
2078,2080,2081,0,
2076,2081,2082,0,
2055,2082,2083,0,
1458,2083,2084,0,
2084,0,2085,2,
1463,0,2086,2,
2085,2086,2087,0,
2087,0,2088,2,
655,2088,2089,0,
2089,0,2090,2,
2071,0,2091,2,
2090,2091,2092,0,
2092,0,2093,2,
2090,2093,2094,0,
394,0,2095,2,
398,2095,2096,0,
2092,1808,2097,0,
2097,0,2098,2,
1584,399,2099,0,
2099,1674,2100,1,
2099,1674,2101,0,
2100,2101,2102,1,
399,394,2103,1,
2103,0,2104,2,
2104,0,2105,2,
1616,2105,2106,0,
2106,0,2107,2,
2102,2107,2108,0,
2099,2104,2109,1,
2099,2104,2110,0,
2109,2110,2111,1,
2108,2111,2112,0,
2112,1632,2113,1,
2113,0,2114,2,
394,399,2115,0,
2115,0,2116,2,
415,2116,2117,1,
2114,2117,2118,1,
2099,1616,2119,1,
2119,0,2120,2,
2120,2104,2121,1,
2118,2121,2122,0,
2112,0,2123,2,
1633,2123,2124,0,
2124,0,2125,2,
1633,2117,2126,0,
2126,0,2127,2,
2125,2127,2128,0,
2112,0,2129,2,
2117,2129,2130,0,
2130,0,2131,2,
2128,2131,2132,0,
2132,1510,2133,1,
2133,0,2134,2,
2116,0,2135,2,
416,2135,2136,0,
2136,0,2137,2,
427,2137,2138,1,
2134,2138,2139,1,
2132,0,2140,2,
1511,2140,2141,0,
2141,0,2142,2,
1511,2138,2143,0,
2143,0,2144,2,
2142,2144,2145,0,
2132,0,2146,2,
2138,2146,2147,0,
2147,0,2148,2,
2145,2148,2149,0,
2149,1650,2150,1,
2150,0,2151,2,
2137,0,2152,2,
428,2152,2153,0,
2153,0,2154,2,
439,2154,2155,1,
2151,2155,2156,1,
2139,2156,2157,0,
2122,2157,2158,0,
2154,0,2159,2,
440,2159,2160,0,
2160,0,2161,2,
2161,0,2162,2,
452,2162,2163,0,
2163,0,2164,2,
2164,0,2165,2,
464,2165,2166,0,
475,2166,2167,1,
2167,0,2168,2,
2149,0,2169,2,
1482,2169,2170,0,
2170,0,2171,2,
1482,2155,2172,0,
2172,0,2173,2,
2171,2173,2174,0,
2149,0,2175,2,
2155,2175,2176,0,
2176,0,2177,2,
2174,2177,2178,0,
451,2161,2179,1,
2179,0,2180,2,
2178,2180,2181,0,
464,2164,2182,1,
2181,2182,2183,0,
2168,2183,2184,1,
2179,2178,2185,1,
2185,0,2186,2,
2184,2186,2187,0,
399,1583,2188,1,
2188,0,2189,2,
2182,2181,2190,1,
2189,2190,2191,0,
2187,2191,2192,0,
2158,2192,2193,0,
2193,0,2194,2,
475,0,2195,2,
2168,2195,2196,0,
2196,2183,2197,0,
2197,0,2198,2,
2194,2198,2199,0,
658,2199,2200,0,
475,0,2201,2,
463,2201,2202,0,
2096,2202,2203,0,
451,439,2204,0,
427,415,2205,0,
2204,2205,2206,0,
2203,2206,2207,0,
2207,0,2208,2,
2208,2094,2209,0,
2200,2209,2210,0,
2210,1807,2211,0,
2211,0,2212,2,
2098,2212,2213,0,
2213,0,2214,2,
2092,1794,2215,0,
2215,0,2216,2,
1793,2210,2217,0,
2217,0,2218,2,
2216,2218,2219,0,
2219,0,2220,2,
2092,1778,2221,0,
2221,0,2222,2,
2210,1777,2223,0,
2223,0,2224,2,
2222,2224,2225,0,
2225,0,2226,2,
2092,1762,2227,0,
2227,0,2228,2,
2210,1761,2229,0,
2229,0,2230,2,
2228,2230,2231,0,
2231,0,2232,2,
2092,1741,2233,0,
2233,0,2234,2,
2210,1740,2235,0,
2235,0,2236,2,
2234,2236,2237,0,
2237,0,2238,2,
2092,1720,2239,0,
2239,0,2240,2,
2210,1719,2241,0,
2241,0,2242,2,
2240,2242,2243,0,
2243,0,2244,2,
2092,1705,2245,0,
2245,0,2246,2,
2210,1704,2247,0,
2247,0,2248,2,
2246,2248,2249,0,
2249,0,2250,2,
473,460,2251,1,
473,460,2252,0,
2251,2252,2253,1,
2253,0,2254,2,
436,448,2255,1,
436,448,2256,0,
2255,2256,2257,1,
2257,0,2258,2,
2254,2258,2259,0,
412,424,2260,1,
412,424,2261,0,
2260,2261,2262,1,
2262,0,2263,2,
391,402,2264,1,
391,402,2265,0,
2264,2265,2266,1,
2266,0,2267,2,
2263,2267,2268,0,
2259,2268,2269,0,
2269,0,2270,2,
2270,2208,2271,0,
2271,0,2272,2,
660,2272,2273,0,
2273,0,2274,2,
1510,1650,2275,0,
1674,1584,2276,0,
2275,2276,2277,0,
2277,0,2278,2,
2274,2278,2279,0,
480,2279,2280,0,
1516,2083,2281,0,
2281,0,2282,2,
485,0,2283,2,
2282,2283,2284,0,
2284,2088,2285,1,
2284,2088,2286,0,
2285,2286,2287,1,
2287,0,2288,2,
475,2288,2289,0,
2289,0,2290,2,
2168,0,2291,2,
2088,2291,2292,0,
2292,0,2293,2,
2290,2293,2294,0,
2199,0,2295,2,
2208,2295,2296,0,
2296,0,2297,2,
2277,0,2298,2,
2297,2298,2299,0,
2299,2284,2300,0,
2184,0,2301,2,
2300,2301,2302,0,
2302,0,2303,2,
2294,2303,2304,0,
2304,0,2305,2,
2092,1687,2306,0,
2306,0,2307,2,
2210,1686,2308,0,
2308,0,2309,2,
2307,2309,2310,0,
2310,0,2311,2,
464,2288,2312,0,
2312,0,2313,2,
2182,0,2314,2,
2088,2314,2315,0,
2315,0,2316,2,
2313,2316,2317,0,
2190,0,2318,2,
2300,2318,2319,0,
2319,0,2320,2,
2317,2320,2321,0,
2321,0,2322,2,
452,2288,2323,0,
2323,0,2324,2,
2088,2179,2325,0,
2325,0,2326,2,
2324,2326,2327,0,
2185,2300,2328,0,
2328,0,2329,2,
2327,2329,2330,0,
2330,0,2331,2,
440,2288,2332,0,
2332,0,2333,2,
2155,2088,2334,0,
2334,0,2335,2,
2333,2335,2336,0,
2156,0,2337,2,
2300,2337,2338,0,
2338,0,2339,2,
2336,2339,2340,0,
2340,0,2341,2,
428,2288,2342,0,
2342,0,2343,2,
2138,2088,2344,0,
2344,0,2345,2,
2343,2345,2346,0,
2139,0,2347,2,
2300,2347,2348,0,
2348,0,2349,2,
2346,2349,2350,0,
2350,0,2351,2,
416,2288,2352,0,
2352,0,2353,2,
2117,2088,2354,0,
2354,0,2355,2,
2353,2355,2356,0,
2118,0,2357,2,
2300,2357,2358,0,
2358,0,2359,2,
2356,2359,2360,0,
2360,0,2361,2,
394,2288,2362,0,
2362,0,2363,2,
2105,2088,2364,0,
2364,0,2365,2,
2363,2365,2366,0,
2121,0,2367,2,
2300,2367,2368,0,
2368,0,2369,2,
2366,2369,2370,0,
2370,0,2371,2,
2189,0,2372,2,
2300,2372,2373,0,
2373,0,2374,2,
2288,2088,2375,1,
398,2375,2376,0,
2288,2376,2377,1,
2377,0,2378,2,
2374,2378,2379,0,
2379,0,2380,2,
1459,1513,2381,1,
1584,2381,2382,0,
1459,2382,2383,1,
1757,0,2384,2,
1650,2384,2385,0,
2385,0,2386,2,
2383,2386,2387,0,
1977,1632,2388,0,
2388,0,2389,2,
2007,1616,2390,1,
2007,1616,2391,0,
2390,2391,2392,1,
2389,2392,2393,0,
1510,1890,2394,0,
2394,0,2395,2,
2393,2395,2396,0,
2387,2396,2397,0,
2397,0,2398,2,
2398,2044,2399,1,
2092,2399,2400,0,
2400,0,2401,2,
2398,2210,2402,0,
2402,0,2403,2,
2401,2403,2404,0,
2404,0,2405,2,
2092,2043,2406,0,
2406,0,2407,2,
2210,2042,2408,0,
2408,0,2409,2,
2407,2409,2410,0,
2410,0,2411,2,
2092,2022,2412,0,
2412,0,2413,2,
2210,2021,2414,0,
2414,0,2415,2,
2413,2415,2416,0,
2416,0,2417,2,
2092,1669,2418,0,
2418,0,2419,2,
2210,1649,2420,0,
2420,0,2421,2,
2419,2421,2422,0,
2422,0,2423,2,
2092,2003,2424,0,
2424,0,2425,2,
2210,2002,2426,0,
2426,0,2427,2,
2425,2427,2428,0,
2428,0,2429,2,
2092,1984,2430,0,
2430,0,2431,2,
2210,1983,2432,0,
2432,0,2433,2,
2431,2433,2434,0,
2434,0,2435,2,
2092,1963,2436,0,
2436,0,2437,2,
2210,1962,2438,0,
2438,0,2439,2,
2437,2439,2440,0,
2440,0,2441,2,
2092,1943,2442,0,
2442,0,2443,2,
2210,1942,2444,0,
2444,0,2445,2,
2443,2445,2446,0,
2446,0,2447,2,
2092,1921,2448,0,
2448,0,2449,2,
2210,1920,2450,0,
2450,0,2451,2,
2449,2451,2452,0,
2452,0,2453,2,
2092,1897,2454,0,
2454,0,2455,2,
2210,1896,2456,0,
2456,0,2457,2,
2455,2457,2458,0,
2458,0,2459,2,
2092,1874,2460,0,
2460,0,2461,2,
2210,1873,2462,0,
2462,0,2463,2,
2461,2463,2464,0,
2464,0,2465,2,
2092,1850,2466,0,
2466,0,2467,2,
2210,1849,2468,0,
2468,0,2469,2,
2467,2469,2470,0,
2470,0,2471,2,
2092,1836,2472,0,
2472,0,2473,2,
2210,1835,2474,0,
2474,0,2475,2,
2473,2475,2476,0,
2476,0,2477,2,
2092,1822,2478,0,
2478,0,2479,2,
2210,1821,2480,0,
2480,0,2481,2,
2479,2481,2482,0,
2482,0,2483,2,
2092,2210,2484,1,
1668,2484,2485,0,
2092,2485,2486,1,
0,0,2487,1,
2487,2486,2488,1,
2487,2423,2489,1,
2487,2311,2490,1,
2487,2250,2491,1,
2487,2244,2492,1,
2487,2238,2493,1,
2487,2232,2494,1,
2487,2226,2495,1,
2487,2220,2496,1,
2487,2214,2497,1,
2487,2483,2498,1,
2487,2477,2499,1,
2487,2471,2500,1,
2487,2465,2501,1,
2487,2459,2502,1,
2487,2453,2503,1,
2487,2447,2504,1,
2487,2441,2505,1,
2487,2435,2506,1,
2487,2429,2507,1,
2487,2417,2508,1,
2487,2411,2509,1,
2487,2405,2510,1,
2487,2380,2511,1,
2487,2371,2512,1,
2487,2361,2513,1,
2487,2351,2514,1,
2487,2341,2515,1,
2487,2331,2516,1,
2487,2322,2517,1,
2487,2305,2518,1,
2487,2280,2519,1,
