14,23,32,0,
17,23,33,0,
6,23,34,0,
11,23,35,0,
20,23,36,0,
24,0,37,2,
12,23,38,0,
8,23,39,0,
10,23,40,0,
25,0,41,2,
18,23,42,0,
2,23,43,0,
4,23,44,0,
1,23,45,0,
23,0,46,2,
27,0,47,2,
29,0,48,2,
25,24,49,0,
0,23,50,0,
31,0,51,2,
13,23,52,0,
21,23,53,0,
30,0,54,2,
5,23,55,0,
28,0,56,2,
9,23,57,0,
26,0,58,2,
16,23,59,0,
26,25,60,0,
28,29,61,0,
27,26,62,0,
23,24,63,0,
15,23,64,0,
19,23,65,0,
22,23,66,0,
3,23,67,0,
7,23,68,0,
42,0,69,2,
36,0,70,2,
40,0,71,2,
39,0,72,2,
34,0,73,2,
35,0,74,2,
37,23,75,1,
38,0,76,2,
41,63,77,1,
33,0,78,2,
32,0,79,2,
43,0,80,2,
44,0,81,2,
45,0,82,2,
49,23,83,0,
37,41,84,0,
65,0,85,2,
46,54,86,0,
68,0,87,2,
57,0,88,2,
66,0,89,2,
27,61,90,0,
64,0,91,2,
63,60,92,0,
59,0,93,2,
52,0,94,2,
53,0,95,2,
55,0,96,2,
67,0,97,2,
48,56,98,0,
58,47,99,0,
77,0,100,2,
75,0,101,2,
30,90,102,0,
75,77,103,0,
83,0,104,2,
83,26,105,0,
99,98,106,0,
86,84,107,0,
92,90,108,0,
62,83,109,0,
100,75,110,0,
100,101,111,0,
101,77,112,0,
102,0,113,2,
47,105,114,1,
104,26,115,1,
103,50,116,0,
109,0,117,2,
30,108,118,0,
108,0,119,2,
107,106,120,0,
109,28,121,0,
120,0,122,2,
117,28,123,1,
119,54,124,0,
48,121,125,1,
115,0,126,2,
114,0,127,2,
112,46,128,0,
111,46,129,0,
51,118,130,0,
118,0,131,2,
110,50,132,0,
31,118,133,0,
122,46,134,0,
22,122,135,0,
125,113,136,0,
123,0,137,2,
124,0,138,2,
128,0,139,2,
130,0,140,2,
114,123,141,0,
125,131,142,0,
122,131,143,0,
132,0,144,2,
133,0,145,2,
5,134,146,0,
16,134,147,0,
11,134,148,0,
19,134,149,0,
10,134,150,0,
7,134,151,0,
8,134,152,0,
9,134,153,0,
13,134,154,0,
17,134,155,0,
3,134,156,0,
1,134,157,0,
0,134,158,0,
135,0,159,2,
137,124,160,0,
137,127,161,0,
136,138,162,0,
136,0,163,2,
4,134,164,0,
20,134,165,0,
141,115,166,0,
15,134,167,0,
14,134,168,0,
12,134,169,0,
18,134,170,0,
21,134,171,0,
6,134,172,0,
122,140,173,0,
2,134,174,0,
155,0,175,2,
153,0,176,2,
149,0,177,2,
151,0,178,2,
146,0,179,2,
148,0,180,2,
150,0,181,2,
152,0,182,2,
147,0,183,2,
154,0,184,2,
156,0,185,2,
157,0,186,2,
158,0,187,2,
159,46,188,0,
160,126,189,0,
124,163,190,0,
162,141,191,0,
170,0,192,2,
172,0,193,2,
171,0,194,2,
162,123,195,0,
167,0,196,2,
168,0,197,2,
166,142,198,0,
169,0,199,2,
165,0,200,2,
164,0,201,2,
174,0,202,2,
88,182,203,0,
71,176,204,0,
74,181,205,0,
69,175,206,0,
76,180,207,0,
79,184,208,0,
70,177,209,0,
78,183,210,0,
73,179,211,0,
72,178,212,0,
80,186,213,0,
82,187,214,0,
81,185,215,0,
188,0,216,2,
189,163,217,0,
190,161,218,0,
191,115,219,0,
191,126,220,0,
190,137,221,0,
95,200,222,0,
87,193,223,0,
85,192,224,0,
195,127,225,0,
97,202,226,0,
91,197,227,0,
89,194,228,0,
195,114,229,0,
198,0,230,2,
94,199,231,0,
93,196,232,0,
96,201,233,0,
224,0,234,2,
203,0,235,2,
208,0,236,2,
205,0,237,2,
231,0,238,2,
223,0,239,2,
204,0,240,2,
212,0,241,2,
206,0,242,2,
209,0,243,2,
232,0,244,2,
233,0,245,2,
211,0,246,2,
207,0,247,2,
210,0,248,2,
227,0,249,2,
213,0,250,2,
226,0,251,2,
214,0,252,2,
222,0,253,2,
215,0,254,2,
103,216,255,0,
110,216,256,0,
228,0,257,2,
218,115,258,0,
217,114,259,0,
218,126,260,0,
219,116,261,0,
229,126,262,0,
229,115,263,0,
225,115,264,0,
230,138,265,0,
111,216,266,0,
225,126,267,0,
217,127,268,0,
112,216,269,0,
112,248,270,0,
112,235,271,0,
110,249,272,0,
235,103,273,0,
112,242,274,0,
103,247,275,0,
110,244,276,0,
103,243,277,0,
111,236,278,0,
103,237,279,0,
103,234,280,0,
112,240,281,0,
111,246,282,0,
110,241,283,0,
111,245,284,0,
111,238,285,0,
110,239,286,0,
111,248,287,0,
134,257,288,1,
288,101,289,0,
134,289,290,1,
103,249,291,0,
111,242,292,0,
111,235,293,0,
110,243,294,0,
103,241,295,0,
111,250,296,0,
110,234,297,0,
112,246,298,0,
103,251,299,0,
110,254,300,0,
111,253,301,0,
110,237,302,0,
112,238,303,0,
112,253,304,0,
112,252,305,0,
255,0,306,2,
256,0,307,2,
103,236,308,0,
103,240,309,0,
110,236,310,0,
111,241,311,0,
111,254,312,0,
112,254,313,0,
103,246,314,0,
110,257,315,0,
112,241,316,0,
112,247,317,0,
111,247,318,0,
112,244,319,0,
250,50,320,1,
320,101,321,0,
250,321,322,1,
103,242,323,0,
110,246,324,0,
110,240,325,0,
111,243,326,0,
103,248,327,0,
112,236,328,0,
111,237,329,0,
110,238,330,0,
110,252,331,0,
111,240,332,0,
112,249,333,0,
110,247,334,0,
112,251,335,0,
103,244,336,0,
103,245,337,0,
259,129,338,0,
103,252,339,0,
261,0,340,2,
103,254,341,0,
112,239,342,0,
111,234,343,0,
251,111,344,0,
265,0,345,2,
111,249,346,0,
111,252,347,0,
103,257,348,0,
111,239,349,0,
110,253,350,0,
264,116,351,0,
112,237,352,0,
112,245,353,0,
112,234,354,0,
110,235,355,0,
259,266,356,0,
110,248,357,0,
110,251,358,0,
112,243,359,0,
110,242,360,0,
112,250,361,0,
268,266,362,0,
268,129,363,0,
103,239,364,0,
103,238,365,0,
111,244,366,0,
103,253,367,0,
269,0,368,2,
110,245,369,0,
283,0,370,2,
278,0,371,2,
277,0,372,2,
281,0,373,2,
274,0,374,2,
276,0,375,2,
282,0,376,2,
275,0,377,2,
273,0,378,2,
272,0,379,2,
286,0,380,2,
270,0,381,2,
284,0,382,2,
279,0,383,2,
280,0,384,2,
271,0,385,2,
285,0,386,2,
295,0,387,2,
296,0,388,2,
300,0,389,2,
290,77,390,0,
292,0,391,2,
294,0,392,2,
298,0,393,2,
304,0,394,2,
303,0,395,2,
287,0,396,2,
301,0,397,2,
302,0,398,2,
299,0,399,2,
305,0,400,2,
297,0,401,2,
293,0,402,2,
291,0,403,2,
100,290,404,0,
100,322,405,0,
318,0,406,2,
323,0,407,2,
316,0,408,2,
315,0,409,2,
325,0,410,2,
311,0,411,2,
310,0,412,2,
319,0,413,2,
317,0,414,2,
309,0,415,2,
313,0,416,2,
314,0,417,2,
324,0,418,2,
312,0,419,2,
308,0,420,2,
326,0,421,2,
332,0,422,2,
336,0,423,2,
322,77,424,0,
334,0,425,2,
335,0,426,2,
331,0,427,2,
327,0,428,2,
328,0,429,2,
329,0,430,2,
333,0,431,2,
330,0,432,2,
337,0,433,2,
338,0,434,2,
219,339,435,0,
369,0,436,2,
342,0,437,2,
344,0,438,2,
349,0,439,2,
365,0,440,2,
346,0,441,2,
367,0,442,2,
351,0,443,2,
264,339,444,0,
354,0,445,2,
360,0,446,2,
353,0,447,2,
358,0,448,2,
359,0,449,2,
363,0,450,2,
362,0,451,2,
361,0,452,2,
355,0,453,2,
352,0,454,2,
356,0,455,2,
357,0,456,2,
364,0,457,2,
347,0,458,2,
341,0,459,2,
350,0,460,2,
366,0,461,2,
348,0,462,2,
343,0,463,2,
386,384,464,0,
381,379,465,0,
376,377,466,0,
373,370,467,0,
371,372,468,0,
374,375,469,0,
378,438,470,0,
382,383,471,0,
385,380,472,0,
396,306,473,0,
394,401,474,0,
388,387,475,0,
393,389,476,0,
399,400,477,0,
402,403,478,0,
395,398,479,0,
397,307,480,0,
390,0,481,2,
391,392,482,0,
259,404,483,0,
413,412,484,0,
406,407,485,0,
419,415,486,0,
417,416,487,0,
408,418,488,0,
405,0,489,2,
411,420,490,0,
139,409,491,0,
414,410,492,0,
422,423,493,0,
426,427,494,0,
430,428,495,0,
429,425,496,0,
431,432,497,0,
435,0,498,2,
219,424,499,0,
449,446,500,0,
461,462,501,0,
264,424,502,0,
444,0,503,2,
268,404,504,0,
447,448,505,0,
458,457,506,0,
368,460,507,0,
439,440,508,0,
452,144,509,0,
441,442,510,0,
454,453,511,0,
445,456,512,0,
437,436,513,0,
470,513,514,0,
465,464,515,0,
469,468,516,0,
472,471,517,0,
467,466,518,0,
476,475,519,0,
477,0,520,2,
480,0,521,2,
482,481,522,0,
479,478,523,0,
474,473,524,0,
483,0,525,2,
487,489,526,0,
484,485,527,0,
491,421,528,0,
488,486,529,0,
492,490,530,0,
496,493,531,0,
497,495,532,0,
494,433,533,0,
499,0,534,2,
512,510,535,0,
502,0,536,2,
504,0,537,2,
505,506,538,0,
509,459,539,0,
511,508,540,0,
500,501,541,0,
507,463,542,0,
518,0,543,2,
514,0,544,2,
515,0,545,2,
539,0,546,2,
517,0,547,2,
516,0,548,2,
259,521,549,0,
522,0,550,2,
523,0,551,2,
219,520,552,0,
519,0,553,2,
524,0,554,2,
530,0,555,2,
526,0,556,2,
541,0,557,2,
529,0,558,2,
527,0,559,2,
528,0,560,2,
538,0,561,2,
220,520,562,0,
258,521,563,0,
533,0,564,2,
532,0,565,2,
531,0,566,2,
540,0,567,2,
535,0,568,2,
542,0,569,2,
263,521,570,0,
267,520,571,0,
268,521,572,0,
264,520,573,0,
260,547,574,0,
260,543,575,0,
219,546,576,0,
339,544,577,1,
577,115,578,0,
339,578,579,1,
258,545,580,0,
258,548,581,0,
549,0,582,2,
552,0,583,2,
553,116,584,1,
584,126,585,0,
553,585,586,1,
258,550,587,0,
260,551,588,0,
258,554,589,0,
126,554,590,0,
258,557,591,0,
260,555,592,0,
219,556,593,0,
551,561,594,1,
594,126,595,0,
551,595,596,1,
258,560,597,0,
260,559,598,0,
558,424,599,1,
599,126,600,0,
558,600,601,1,
219,547,602,0,
260,545,603,0,
562,0,604,2,
563,0,605,2,
258,565,606,0,
129,557,607,1,
607,126,608,0,
129,608,609,1,
259,569,610,0,
260,553,611,0,
220,564,612,0,
260,566,613,0,
219,567,614,0,
258,566,615,0,
266,568,616,1,
616,126,617,0,
266,617,618,1,
260,544,619,0,
555,556,620,1,
620,126,621,0,
555,621,622,1,
259,550,623,0,
258,559,624,0,
260,558,625,0,
259,560,626,0,
263,568,627,0,
219,561,628,0,
262,566,629,0,
263,550,630,0,
263,569,631,0,
262,565,632,0,
263,560,633,0,
262,559,634,0,
264,547,635,0,
262,545,636,0,
571,0,637,2,
570,0,638,2,
264,561,639,0,
263,554,640,0,
264,543,641,0,
262,551,642,0,
267,546,643,0,
404,548,644,1,
644,126,645,0,
404,645,646,1,
262,553,647,0,
268,550,648,0,
263,566,649,0,
220,561,650,0,
268,554,651,0,
267,564,652,0,
264,567,653,0,
219,551,654,0,
268,569,655,0,
262,544,656,0,
263,565,657,0,
268,560,658,0,
263,559,659,0,
262,558,660,0,
219,555,661,0,
220,556,662,0,
263,548,663,0,
262,543,664,0,
264,546,665,0,
262,547,666,0,
263,545,667,0,
258,568,668,0,
572,0,669,2,
573,0,670,2,
264,564,671,0,
264,556,672,0,
262,555,673,0,
262,567,674,0,
219,564,675,0,
260,565,676,0,
219,543,677,0,
220,546,678,0,
260,567,679,0,
263,557,680,0,
258,569,681,0,
579,191,682,0,
580,0,683,2,
574,0,684,2,
628,0,685,2,
581,0,686,2,
576,0,687,2,
575,0,688,2,
587,0,689,2,
191,586,690,0,
583,582,691,0,
589,0,692,2,
588,0,693,2,
598,0,694,2,
597,0,695,2,
191,601,696,0,
591,0,697,2,
592,0,698,2,
593,0,699,2,
590,596,700,1,
700,127,701,0,
590,701,702,1,
603,0,703,2,
602,0,704,2,
605,604,705,0,
609,622,706,1,
706,127,707,0,
609,707,708,1,
613,0,709,2,
610,0,710,2,
614,0,711,2,
612,0,712,2,
606,0,713,2,
615,0,714,2,
218,618,715,0,
611,0,716,2,
623,0,717,2,
619,0,718,2,
624,0,719,2,
626,0,720,2,
625,0,721,2,
680,0,722,2,
673,0,723,2,
218,646,724,0,
678,0,725,2,
677,0,726,2,
676,0,727,2,
681,0,728,2,
629,0,729,2,
630,0,730,2,
225,586,731,0,
631,0,732,2,
579,225,733,0,
632,0,734,2,
633,0,735,2,
634,0,736,2,
225,601,737,0,
635,0,738,2,
636,0,739,2,
640,0,740,2,
639,0,741,2,
642,0,742,2,
641,0,743,2,
229,646,744,0,
643,0,745,2,
648,0,746,2,
647,0,747,2,
649,0,748,2,
651,0,749,2,
650,0,750,2,
653,0,751,2,
652,0,752,2,
229,618,753,0,
654,0,754,2,
655,0,755,2,
656,0,756,2,
657,0,757,2,
659,0,758,2,
660,0,759,2,
658,0,760,2,
661,0,761,2,
662,0,762,2,
218,609,763,0,
667,0,764,2,
666,0,765,2,
665,0,766,2,
663,0,767,2,
664,0,768,2,
672,0,769,2,
671,0,770,2,
670,669,771,0,
668,0,772,2,
674,0,773,2,
679,0,774,2,
627,0,775,2,
675,0,776,2,
709,685,777,0,
687,688,778,0,
682,0,779,2,
684,683,780,0,
686,525,781,0,
690,0,782,2,
693,692,783,0,
699,698,784,0,
697,434,785,0,
696,0,786,2,
694,695,787,0,
221,702,788,0,
704,703,789,0,
710,718,790,0,
714,340,791,0,
713,498,792,0,
717,716,793,0,
715,0,794,2,
221,708,795,0,
709,689,796,0,
711,712,797,0,
719,534,798,0,
720,721,799,0,
773,775,800,0,
770,451,801,0,
726,725,802,0,
724,0,803,2,
731,0,804,2,
729,730,805,0,
734,732,806,0,
733,0,807,2,
737,0,808,2,
736,735,809,0,
738,637,810,0,
739,638,811,0,
740,741,812,0,
744,0,813,2,
743,745,814,0,
747,748,815,0,
443,746,816,0,
749,750,817,0,
753,0,818,2,
751,752,819,0,
756,757,820,0,
755,503,821,0,
195,708,822,0,
195,702,823,0,
759,758,824,0,
760,536,825,0,
763,0,826,2,
761,762,827,0,
765,764,828,0,
768,767,829,0,
766,537,830,0,
769,450,831,0,
776,774,832,0,
723,722,833,0,
693,692,834,0,
772,455,835,0,
727,728,836,0,
777,689,837,0,
780,691,838,0,
781,778,839,0,
836,779,840,0,
835,832,841,0,
783,782,842,0,
795,0,843,2,
787,786,844,0,
785,784,845,0,
705,789,846,0,
802,803,847,0,
788,0,848,2,
834,685,849,0,
796,782,850,0,
797,794,851,0,
792,790,852,0,
791,793,853,0,
798,799,854,0,
809,808,855,0,
801,800,856,0,
831,833,857,0,
825,824,858,0,
817,754,859,0,
821,820,860,0,
830,829,861,0,
771,828,862,0,
816,815,863,0,
805,804,864,0,
806,807,865,0,
810,811,866,0,
812,742,867,0,
814,813,868,0,
819,818,869,0,
823,0,870,2,
827,826,871,0,
838,839,872,0,
840,844,873,0,
845,840,874,0,
837,841,875,0,
843,788,876,1,
840,0,877,2,
844,0,878,2,
846,0,879,2,
847,0,880,2,
843,848,881,0,
841,0,882,2,
838,0,883,2,
850,0,884,2,
853,0,885,2,
851,0,886,2,
852,0,887,2,
854,0,888,2,
849,0,889,2,
839,0,890,2,
861,860,891,0,
859,858,892,0,
849,850,893,0,
853,848,894,0,
845,0,895,2,
856,0,896,2,
862,0,897,2,
857,0,898,2,
871,0,899,2,
865,0,900,2,
855,0,901,2,
866,0,902,2,
867,0,903,2,
868,0,904,2,
847,871,905,0,
846,863,906,0,
869,0,907,2,
858,0,908,2,
863,0,909,2,
860,0,910,2,
859,0,911,2,
849,850,912,0,
857,847,913,0,
856,846,914,0,
851,871,915,0,
864,0,916,2,
860,858,917,0,
853,843,918,0,
854,852,919,0,
847,846,920,0,
838,839,921,0,
860,858,922,0,
861,0,923,2,
851,863,924,0,
862,871,925,0,
875,874,926,0,
842,872,927,0,
841,873,928,0,
872,841,929,0,
876,0,930,2,
918,848,931,0,
853,881,932,1,
914,913,933,0,
919,843,934,0,
921,845,935,0,
925,924,936,0,
892,891,937,0,
905,851,938,0,
906,859,939,0,
922,862,940,0,
927,926,941,0,
928,893,942,0,
894,934,943,0,
931,852,944,0,
852,931,945,1,
930,843,946,0,
939,938,947,0,
935,933,948,0,
920,935,949,0,
937,936,950,0,
941,943,951,0,
935,942,952,0,
943,845,953,0,
943,838,954,0,
949,942,955,0,
838,943,956,1,
854,944,957,1,
943,838,958,0,
947,943,959,0,
950,942,960,0,
943,950,961,0,
948,943,962,0,
915,943,963,0,
952,943,964,0,
844,951,965,1,
954,839,966,0,
929,953,967,0,
943,955,968,0,
839,958,969,1,
955,961,970,0,
960,962,971,0,
955,963,972,0,
959,952,973,0,
846,964,974,1,
967,849,975,0,
841,966,976,1,
851,968,977,1,
849,967,978,1,
856,970,979,0,
917,973,980,0,
971,0,981,2,
964,846,982,0,
964,947,983,0,
972,859,984,0,
859,972,985,1,
970,0,986,2,
971,138,987,0,
966,841,988,0,
968,851,989,0,
912,967,990,0,
973,940,991,0,
840,990,992,1,
31,981,993,0,
850,975,994,1,
979,0,995,2,
980,0,996,2,
845,988,997,1,
871,989,998,1,
903,981,999,0,
981,867,1000,1,
916,981,1001,0,
983,860,1002,0,
860,983,1003,1,
863,984,1004,1,
982,0,1005,2,
987,0,1006,2,
861,991,1007,1,
878,965,1008,1,
1008,993,1009,0,
878,1009,1010,1,
877,992,1011,1,
1011,993,1012,0,
877,1012,1013,1,
788,930,1014,1,
1014,993,1015,0,
788,1015,1016,1,
879,974,1017,1,
1017,993,1018,0,
879,1018,1019,1,
882,976,1020,1,
1020,993,1021,0,
882,1021,1022,1,
899,998,1023,1,
1023,993,1024,0,
899,1024,1025,1,
887,945,1026,1,
1026,993,1027,0,
887,1027,1028,1,
886,977,1029,1,
1029,993,1030,0,
886,1030,1031,1,
885,932,1032,1,
1032,993,1033,0,
885,1033,1034,1,
883,956,1035,1,
1035,993,1036,0,
883,1036,1037,1,
884,994,1038,1,
1038,993,1039,0,
884,1039,1040,1,
889,978,1041,1,
1041,993,1042,0,
889,1042,1043,1,
888,957,1044,1,
1044,993,1045,0,
888,1045,1046,1,
895,997,1047,1,
1047,993,1048,0,
895,1048,1049,1,
890,969,1050,1,
1050,993,1051,0,
890,1051,1052,1,
995,898,1053,0,
923,1007,1054,1,
1054,993,1055,0,
923,1055,1056,1,
993,1005,1057,0,
864,999,1058,1,
1001,903,1059,0,
1000,0,1060,2,
858,1002,1061,1,
909,1004,1062,1,
1062,993,1063,0,
909,1063,1064,1,
910,1003,1065,1,
1065,993,1066,0,
910,1066,1067,1,
911,985,1068,1,
1068,993,1069,0,
911,1069,1070,1,
1006,143,1071,0,
993,996,1072,0,
993,986,1073,0,
795,1010,1074,0,
1016,1013,1075,0,
880,1057,1076,1,
795,1019,1077,0,
1022,0,1078,2,
1016,1010,1079,0,
795,1010,1080,0,
1040,1034,1081,0,
1016,1031,1082,0,
1016,1019,1083,0,
1016,1025,1084,0,
795,1031,1085,0,
1028,1037,1086,0,
1034,1031,1087,0,
1037,1019,1088,0,
1028,1040,1089,0,
795,1025,1090,0,
1034,1010,1091,0,
1046,1022,1092,0,
1022,1052,1093,0,
1022,1037,1094,0,
1052,1034,1095,0,
1046,1028,1096,0,
1016,1052,1097,0,
1052,1049,1098,0,
795,1049,1099,0,
1028,1010,1100,0,
1043,1049,1101,0,
795,1040,1102,0,
1046,1010,1103,0,
1043,1037,1104,0,
1016,1043,1105,0,
1037,1034,1106,0,
1049,1037,1107,0,
1022,1037,1108,0,
795,1034,1109,0,
795,1043,1110,0,
1016,1022,1111,0,
1046,1052,1112,0,
1052,1010,1113,0,
1022,1049,1114,0,
1028,1043,1115,0,
1028,1031,1116,0,
1046,1037,1117,0,
1046,1031,1118,0,
1046,1043,1119,0,
1052,1043,1120,0,
795,1040,1121,0,
1022,1040,1122,0,
1046,1040,1123,0,
1037,1013,1124,0,
1040,1049,1125,0,
1040,1043,1126,0,
1052,1013,1127,0,
795,1022,1128,0,
1046,1049,1129,0,
1040,1037,1130,0,
1016,1040,1131,0,
1022,1019,1132,0,
1028,1019,1133,0,
1028,1013,1134,0,
1049,1034,1135,0,
795,1013,1136,0,
795,1028,1137,0,
1034,1013,1138,0,
795,1052,1139,0,
1028,1034,1140,0,
1016,0,1141,2,
1049,1013,1142,0,
1022,1013,1143,0,
1028,1022,1144,0,
1046,1013,1145,0,
1037,1010,1146,0,
1052,1040,1147,0,
1022,1034,1148,0,
1028,1052,1149,0,
1016,1049,1150,0,
1043,1013,1151,0,
1028,1049,1152,0,
1043,1034,1153,0,
1034,1019,1154,0,
1046,1019,1155,0,
1049,1010,1156,0,
1022,1010,1157,0,
1046,1019,1158,0,
1052,1019,1159,0,
1043,1025,1160,0,
1040,1013,1161,0,
1052,1031,1162,0,
1013,0,1163,2,
1052,1037,1164,0,
1022,1043,1165,0,
1022,1043,1166,0,
1034,1025,1167,0,
1043,1010,1168,0,
1037,1031,1169,0,
1028,1025,1170,0,
1046,1025,1171,0,
1049,1019,1172,0,
1040,1010,1173,0,
1043,1019,1174,0,
1037,1025,1175,0,
1013,1031,1176,0,
1022,1031,1177,0,
1052,1025,1178,0,
1049,1031,1179,0,
1010,1013,1180,0,
1019,1013,1181,0,
1040,1019,1182,0,
1010,1031,1183,0,
1043,1031,1184,0,
1022,1025,1185,0,
1049,1025,1186,0,
857,1053,1187,1,
1187,993,1188,0,
857,1188,1189,1,
1059,900,1190,0,
1064,1070,1191,0,
1049,0,1192,2,
897,1072,1193,1,
896,1073,1194,1,
1056,0,1195,2,
1040,1031,1196,0,
1019,1010,1197,0,
1019,0,1198,2,
1019,1031,1199,0,
1040,1025,1200,0,
1013,1025,1201,0,
1052,0,1202,2,
1037,0,1203,2,
1010,1025,1204,0,
1034,0,1205,2,
1019,1025,1206,0,
1031,1025,1207,0,
1031,0,1208,2,
1025,0,1209,2,
1059,865,1210,1,
1000,1058,1211,0,
903,1060,1212,1,
1212,31,1213,0,
903,1213,1214,1,
908,1061,1215,1,
1215,993,1216,0,
908,1216,1217,1,
1058,1060,1218,1,
1028,0,1219,2,
1043,0,1220,2,
1064,0,1221,2,
1070,0,1222,2,
1067,0,1223,2,
1010,0,1224,2,
1071,0,1225,2,
1075,1074,1226,0,
1077,0,1227,2,
795,1076,1228,0,
1075,0,1229,2,
1016,1076,1230,0,
1043,1084,1231,1,
1049,1085,1232,1,
1082,0,1233,2,
1086,0,1234,2,
1034,1076,1235,0,
1088,0,1236,2,
1046,1076,1237,0,
1028,1076,1238,0,
1096,0,1239,2,
1046,1078,1240,1,
1099,0,1241,2,
1097,0,1242,2,
1109,1112,1243,0,
1097,1096,1244,0,
1105,0,1245,2,
1037,1110,1246,1,
1105,1102,1247,0,
1040,1118,1248,1,
1132,795,1249,0,
1127,795,1250,0,
1140,0,1251,2,
1052,1136,1252,1,
1139,0,1253,2,
1137,0,1254,2,
1128,0,1255,2,
1148,0,1256,2,
1092,1086,1257,0,
1151,0,1258,2,
1104,795,1259,0,
1144,0,1260,2,
1082,795,1261,0,
1153,0,1262,2,
1111,1099,1263,0,
1052,1076,1264,0,
1163,1162,1265,1,
1160,1016,1266,0,
1161,0,1267,2,
1099,1031,1268,0,
1123,1031,1269,0,
1037,1076,1270,0,
1126,0,1271,2,
1153,1092,1272,0,
1022,1076,1273,0,
1156,1151,1274,0,
1173,0,1275,2,
1049,1076,1276,0,
1176,1052,1277,0,
1010,1179,1278,1,
1174,1173,1279,0,
1040,1076,1280,0,
1181,0,1281,2,
1183,1049,1282,0,
1043,1076,1283,0,
1180,0,1284,2,
1043,1192,1285,1,
1189,0,1286,2,
1222,1221,1287,0,
1222,1064,1288,0,
1189,1056,1289,0,
1040,1163,1290,1,
1028,1205,1291,1,
1194,1193,1292,0,
1076,0,1293,2,
1010,1163,1294,1,
1046,1219,1295,1,
1214,0,1296,2,
1046,1203,1297,1,
1221,1070,1298,0,
1223,1217,1299,0,
1067,1217,1300,0,
1022,1192,1301,1,
864,1218,1302,1,
1302,31,1303,0,
864,1303,1304,1,
1193,0,1305,2,
1195,1194,1306,0,
1194,0,1307,2,
1013,1076,1308,0,
1010,1076,1309,0,
1198,1196,1310,1,
1197,0,1311,2,
1199,1040,1312,0,
1183,0,1313,2,
1198,1076,1314,0,
1019,1076,1315,0,
1022,1202,1316,1,
1204,1199,1317,1,
1052,1203,1318,1,
1204,1199,1319,0,
1016,1205,1320,1,
1076,1031,1321,0,
1076,1025,1322,0,
1207,0,1323,2,
1208,1025,1324,0,
1208,1076,1325,0,
1031,1209,1326,1,
1037,1205,1327,1,
1205,1203,1328,0,
1210,1058,1329,0,
1190,855,1330,1,
1210,1211,1331,1,
1190,901,1332,0,
1217,0,1333,2,
1019,1224,1334,1,
1040,1220,1335,1,
1226,0,1336,2,
1229,1080,1337,1,
1227,1078,1338,1,
1228,0,1339,2,
1230,1227,1340,0,
1233,1090,1341,1,
1231,1087,1342,1,
1234,1092,1343,1,
1236,1237,1344,1,
1240,0,1345,2,
1241,1111,1346,1,
1239,1242,1347,0,
1240,1106,1348,1,
1243,0,1349,2,
1244,0,1350,2,
1246,1117,1351,1,
1247,0,1352,2,
1245,1121,1353,1,
1126,1248,1354,1,
1117,1246,1355,0,
1150,1255,1356,0,
1083,1228,1357,0,
1141,1254,1358,0,
1253,1251,1359,0,
1257,0,1360,2,
1231,1034,1361,0,
1258,1156,1362,1,
1260,1259,1363,1,
1237,1088,1364,0,
1262,1092,1365,1,
1261,1025,1366,0,
1263,0,1367,2,
1267,1265,1368,1,
1259,1144,1369,0,
1266,0,1370,2,
1269,0,1371,2,
1272,0,1372,2,
1274,0,1373,2,
1275,1174,1374,1,
1277,0,1375,2,
1278,1180,1376,1,
1281,1280,1377,1,
1279,0,1378,2,
1282,0,1379,2,
1304,0,1380,2,
1335,0,1381,2,
1193,1286,1382,0,
1288,1299,1383,0,
1307,1195,1384,0,
1300,1298,1385,0,
1333,1223,1386,0,
1301,0,1387,2,
1056,1286,1388,0,
1287,1300,1389,0,
1333,1067,1390,0,
1288,1300,1391,0,
1292,1289,1392,0,
1318,0,1393,2,
1294,0,1394,2,
1191,1299,1395,0,
1295,0,1396,2,
1334,0,1397,2,
1285,0,1398,2,
1305,1286,1399,0,
1306,1305,1400,0,
1307,1193,1401,0,
1305,1307,1402,0,
1306,1193,1403,0,
1299,1298,1404,0,
1300,1191,1405,0,
1287,1299,1406,0,
1308,0,1407,2,
1309,0,1408,2,
1311,1310,1409,1,
1280,1181,1410,0,
1308,1160,1411,0,
1312,0,1412,2,
1309,1176,1413,0,
1313,1314,1414,1,
1314,1183,1415,0,
1315,0,1416,2,
1316,0,1417,2,
1319,0,1418,2,
1293,1031,1419,0,
1320,0,1420,2,
1297,0,1421,2,
1291,0,1422,2,
1321,0,1423,2,
795,1320,1424,0,
1325,0,1425,2,
1326,0,1426,2,
1327,0,1427,2,
1328,0,1428,2,
1329,1000,1429,0,
1332,866,1430,1,
900,1331,1431,1,
1431,31,1432,0,
900,1432,1433,1,
1296,1304,1434,0,
1332,902,1435,0,
1293,1019,1436,0,
1314,0,1437,2,
1194,1305,1438,0,
1290,0,1439,2,
1334,1294,1440,0,
1326,1025,1441,0,
1194,1305,1442,0,
1079,1336,1443,0,
1339,1083,1444,1,
1337,1081,1445,1,
1232,1340,1446,1,
1337,0,1447,2,
1342,1238,1448,1,
1343,1095,1449,1,
1341,1235,1450,1,
1344,1113,1451,1,
1347,0,1452,2,
1348,0,1453,2,
1343,0,1454,2,
1079,1338,1455,0,
1106,1345,1456,0,
1353,1135,1457,1,
1349,1350,1458,0,
1131,1352,1459,0,
1351,1052,1460,0,
1344,0,1461,2,
1341,0,1462,2,
1351,1149,1463,1,
1346,0,1464,2,
1347,1348,1465,0,
1340,1232,1466,0,
1354,1142,1467,1,
1256,1356,1468,1,
1355,0,1469,2,
1358,0,1470,2,
1359,0,1471,2,
1357,0,1472,2,
1356,1148,1473,0,
1353,0,1474,2,
1363,0,1475,2,
1362,1132,1476,1,
1238,1342,1477,0,
1361,1031,1478,0,
1365,0,1479,2,
1364,0,1480,2,
1368,1168,1481,1,
1369,0,1482,2,
1362,0,1483,2,
1142,1354,1484,0,
1371,1271,1485,0,
1374,1276,1486,1,
1168,1368,1487,0,
1375,1267,1488,0,
1374,0,1489,2,
1376,1182,1490,1,
1377,1184,1491,1,
1182,1376,1492,0,
1379,1284,1493,0,
1290,1398,1494,0,
1382,1384,1495,0,
1390,1288,1496,0,
1401,1388,1497,0,
1287,1386,1498,0,
1301,1393,1499,0,
1381,1285,1500,0,
1392,1391,1501,0,
1417,1318,1502,0,
1393,1387,1503,0,
1390,1191,1504,0,
1292,1388,1505,0,
1442,1388,1506,0,
1421,1291,1507,0,
1384,1193,1508,0,
1335,1439,1509,0,
1398,1439,1510,0,
1400,1189,1511,0,
1390,1298,1512,0,
1402,1388,1513,0,
1288,1386,1514,0,
1392,1385,1515,0,
1384,1286,1516,0,
1399,1306,1517,0,
1401,1289,1518,0,
1382,1306,1519,0,
1390,1287,1520,0,
1402,1289,1521,0,
1438,1289,1522,0,
1386,1191,1523,0,
1386,1298,1524,0,
1403,1189,1525,0,
1392,1383,1526,0,
1377,0,1527,2,
1392,1405,1528,0,
1392,1406,1529,0,
1392,1389,1530,0,
1407,1160,1531,1,
1392,1395,1532,0,
1408,1176,1533,1,
1409,0,1534,2,
1410,0,1535,2,
1411,0,1536,2,
1392,1404,1537,0,
1412,1311,1538,0,
1413,0,1539,2,
1414,1201,1540,1,
1415,0,1541,2,
1414,0,1542,2,
1316,1387,1543,0,
1206,1419,1544,1,
1419,1206,1545,0,
1420,843,1546,0,
1421,1422,1547,0,
1297,1422,1548,0,
1291,1396,1549,0,
795,1420,1550,0,
1419,0,1551,2,
1294,1397,1552,0,
1429,1330,1553,0,
1429,1330,1554,1,
1433,0,1555,2,
1435,868,1556,1,
1214,1380,1557,1,
1435,904,1558,0,
1434,1433,1559,1,
1436,0,1560,2,
1305,1384,1561,0,
1338,1443,1562,1,
1445,0,1563,2,
1444,1091,1564,1,
1081,1447,1565,0,
1446,1100,1566,1,
1449,0,1567,2,
1450,1103,1568,1,
1445,1108,1569,1,
1448,1101,1570,1,
1451,1116,1571,1,
1453,1452,1572,0,
1455,0,1573,2,
1456,0,1574,2,
1450,0,1575,2,
1454,1052,1576,0,
1458,0,1577,2,
1252,1459,1578,1,
1460,1028,1579,0,
1457,1112,1580,1,
1444,0,1581,2,
1235,1462,1582,0,
1466,0,1583,2,
1467,1157,1584,1,
1465,0,1585,2,
1448,1049,1586,0,
1461,1052,1587,0,
1457,0,1588,2,
1463,0,1589,2,
1135,1474,1590,0,
1451,0,1591,2,
1473,0,1592,2,
1470,1471,1593,0,
1100,1446,1594,0,
1477,0,1595,2,
1476,1264,1596,1,
1468,0,1597,2,
1467,1022,1598,0,
1478,0,1599,2,
1459,1252,1600,0,
1476,0,1601,2,
1481,1172,1602,1,
1484,0,1603,2,
1132,1483,1604,0,
1485,0,1605,2,
1481,1049,1606,0,
1486,1177,1607,1,
1487,0,1608,2,
1489,1049,1609,0,
1486,0,1610,2,
1488,0,1611,2,
1490,1283,1612,1,
1490,1043,1613,0,
1491,1186,1614,1,
1492,0,1615,2,
1493,0,1616,2,
1558,907,1617,0,
1383,1495,1618,0,
1425,1551,1619,0,
1561,1189,1620,0,
1560,1437,1621,0,
1497,1389,1622,0,
1521,1498,1623,0,
1517,1498,1624,0,
1497,1504,1625,0,
1505,1395,1626,0,
1506,1395,1627,0,
1508,1189,1628,0,
1509,1285,1629,0,
1517,1512,1630,0,
1513,1514,1631,0,
1516,1305,1632,0,
1518,1520,1633,0,
1519,1391,1634,0,
1517,1520,1635,0,
1519,1389,1636,0,
1505,1383,1637,0,
1505,1389,1638,0,
1521,1404,1639,0,
1497,1404,1640,0,
1511,1514,1641,0,
1518,1496,1642,0,
1520,1495,1643,0,
1517,1391,1644,0,
1521,1389,1645,0,
1525,1523,1646,0,
1501,0,1647,2,
1511,1389,1648,0,
1511,1520,1649,0,
1521,1523,1650,0,
1506,1512,1651,0,
1506,1504,1652,0,
1405,1495,1653,0,
1521,1383,1654,0,
1389,1495,1655,0,
1513,1523,1656,0,
1513,1385,1657,0,
1395,1495,1658,0,
1518,1405,1659,0,
1506,1523,1660,0,
1522,1498,1661,0,
1522,1385,1662,0,
1514,1495,1663,0,
1392,1524,1664,0,
1517,1406,1665,0,
1519,1496,1666,0,
1525,1405,1667,0,
1525,1504,1668,0,
1513,1395,1669,0,
1511,1524,1670,0,
1518,1514,1671,0,
1519,1504,1672,0,
1517,1523,1673,0,
1519,1404,1674,0,
1497,1512,1675,0,
1506,1520,1676,0,
1518,1391,1677,0,
1525,1383,1678,0,
1518,1523,1679,0,
1518,1524,1680,0,
1525,1391,1681,0,
1505,1496,1682,0,
1511,1406,1683,0,
1518,1385,1684,0,
1525,1514,1685,0,
1521,1520,1686,0,
1392,1498,1687,0,
1517,1504,1688,0,
1497,1496,1689,0,
1512,1495,1690,0,
1521,1514,1691,0,
1517,1395,1692,0,
1513,1383,1693,0,
1521,1524,1694,0,
1511,1385,1695,0,
1513,1406,1696,0,
1518,1504,1697,0,
1511,1395,1698,0,
1392,1523,1699,0,
1521,1405,1700,0,
1511,1498,1701,0,
1523,1495,1702,0,
1392,1504,1703,0,
1511,1512,1704,0,
1504,1513,1705,0,
1517,1389,1706,0,
1392,1520,1707,0,
1517,1404,1708,0,
1521,1395,1709,0,
1497,1498,1710,0,
1511,1391,1711,0,
1521,1406,1712,0,
1525,1395,1713,0,
1519,1524,1714,0,
1519,1523,1715,0,
1522,1524,1716,0,
1506,1406,1717,0,
1506,1391,1718,0,
1525,1404,1719,0,
1525,1406,1720,0,
1525,1389,1721,0,
1525,1512,1722,0,
1519,1406,1723,0,
1506,1405,1724,0,
1519,1405,1725,0,
1505,1523,1726,0,
1506,1496,1727,0,
1392,1514,1728,0,
1522,1514,1729,0,
1505,1524,1730,0,
1505,1512,1731,0,
1505,1406,1732,0,
1505,1404,1733,0,
1505,1520,1734,0,
1505,1405,1735,0,
1392,1512,1736,0,
1518,1498,1737,0,
1525,1524,1738,0,
1518,1512,1739,0,
1513,1498,1740,0,
1518,1383,1741,0,
1495,1404,1742,0,
1511,1383,1743,0,
1497,1383,1744,0,
1497,1523,1745,0,
1522,1395,1746,0,
1406,1495,1747,0,
1496,1495,1748,0,
1519,1383,1749,0,
1511,1405,1750,0,
1521,1504,1751,0,
1511,1496,1752,0,
1521,1496,1753,0,
1518,1389,1754,0,
1525,1498,1755,0,
1521,1512,1756,0,
1518,1395,1757,0,
1522,1520,1758,0,
1517,1524,1759,0,
1522,1523,1760,0,
1517,1514,1761,0,
1497,1406,1762,0,
1522,1496,1763,0,
1522,1404,1764,0,
1497,1405,1765,0,
1517,1383,1766,0,
1522,1504,1767,0,
1522,1389,1768,0,
1522,1383,1769,0,
1385,1495,1770,0,
1515,0,1771,2,
1392,1496,1772,0,
1513,1389,1773,0,
1498,1495,1774,0,
1513,1404,1775,0,
1528,0,1776,2,
1513,1520,1777,0,
1526,0,1778,2,
1497,1391,1779,0,
1513,1512,1780,0,
1529,0,1781,2,
1513,1405,1782,0,
1522,1405,1783,0,
1522,1406,1784,0,
1506,1385,1785,0,
1505,1498,1786,0,
1519,1498,1787,0,
1525,1520,1788,0,
1519,1395,1789,0,
1525,1496,1790,0,
1527,1043,1791,0,
1517,1405,1792,0,
1519,1514,1793,0,
1506,1389,1794,0,
1504,1495,1795,0,
1525,1385,1796,0,
1519,1520,1797,0,
1522,1512,1798,0,
1497,1520,1799,0,
1519,1385,1800,0,
1497,1385,1801,0,
1505,1504,1802,0,
1519,1512,1803,0,
1530,0,1804,2,
1532,0,1805,2,
1505,1391,1806,0,
1506,1524,1807,0,
1496,1513,1808,0,
1511,1404,1809,0,
1491,0,1810,2,
1531,0,1811,2,
1518,1406,1812,0,
1518,1404,1813,0,
1521,1385,1814,0,
1521,1391,1815,0,
1391,1495,1816,0,
1533,0,1817,2,
1505,1514,1818,0,
1506,1383,1819,0,
1517,1496,1820,0,
1513,1391,1821,0,
1522,1391,1822,0,
1531,1534,1823,1,
1497,1524,1824,0,
1517,1385,1825,0,
1537,0,1826,2,
1533,1200,1827,1,
1511,1523,1828,0,
1497,1514,1829,0,
1538,0,1830,2,
1540,0,1831,2,
1416,1541,1832,0,
1499,0,1833,2,
1503,0,1834,2,
1201,1542,1835,0,
1543,1318,1836,0,
1494,0,1837,2,
1510,0,1838,2,
1545,0,1839,2,
1546,876,1840,0,
1547,0,1841,2,
1548,0,1842,2,
1507,1295,1843,0,
1557,0,1844,2,
1430,1553,1845,1,
901,1554,1846,1,
1846,31,1847,0,
901,1847,1848,1,
1434,1555,1849,0,
1553,1430,1850,0,
1558,869,1851,1,
1497,1395,1852,0,
1506,1404,1853,0,
1513,1524,1854,0,
1511,1504,1855,0,
1505,1385,1856,0,
1506,1498,1857,0,
1506,1514,1858,0,
1524,1495,1859,0,
1562,1089,1860,1,
1564,1098,1861,1,
1094,1563,1862,0,
1565,0,1863,2,
1566,1114,1864,1,
1346,1567,1865,1,
1570,1122,1866,1,
1569,1115,1867,1,
1568,1124,1868,1,
1089,1562,1869,0,
1571,1125,1870,1,
1564,0,1871,2,
1575,1046,1872,0,
1572,0,1873,2,
1573,1336,1874,0,
1576,1034,1875,0,
1569,0,1876,2,
1568,0,1877,2,
1464,1567,1878,0,
1122,1570,1879,0,
1580,0,1880,2,
1091,1581,1881,0,
1579,0,1882,2,
1578,1152,1883,1,
1571,0,1884,2,
1584,1159,1885,1,
1114,1566,1886,0,
1112,1588,1887,0,
1585,1037,1888,0,
1582,0,1889,2,
1586,1043,1890,0,
1468,1589,1891,1,
1583,1472,1892,0,
1587,1010,1893,0,
1592,1367,1894,0,
1590,0,1895,2,
1594,0,1896,2,
1116,1591,1897,0,
1598,1010,1898,0,
1370,1599,1899,0,
1152,1578,1900,0,
1597,1463,1901,0,
1596,1169,1902,1,
1596,0,1903,2,
1159,1584,1904,0,
1600,0,1905,2,
1602,1273,1906,1,
1264,1601,1907,0,
1604,0,1908,2,
1606,1019,1909,0,
1607,1178,1910,1,
1273,1602,1911,0,
1607,0,1912,2,
1609,1076,1913,0,
1177,1610,1914,0,
1612,1185,1915,1,
1613,1076,1916,0,
1614,0,1917,2,
1185,1612,1918,0,
1618,0,1919,2,
1855,0,1920,2,
1628,1496,1921,0,
1620,1385,1922,0,
1617,0,1923,2,
1627,0,1924,2,
1782,0,1925,2,
1385,1632,1926,0,
1856,0,1927,2,
1621,0,1928,2,
1848,1849,1929,1,
1441,1619,1930,0,
1859,0,1931,2,
1621,1394,1932,0,
1857,0,1933,2,
1620,1504,1934,0,
1512,1632,1935,0,
1643,0,1936,2,
1620,1404,1937,0,
1642,0,1938,2,
1638,0,1939,2,
1620,1514,1940,0,
1635,0,1941,2,
1383,1632,1942,0,
1628,1504,1943,0,
1628,1514,1944,0,
1644,0,1945,2,
1405,1632,1946,0,
1620,1405,1947,0,
1620,1512,1948,0,
1640,0,1949,2,
1633,0,1950,2,
1641,0,1951,2,
1634,0,1952,2,
1620,1383,1953,0,
1628,1385,1954,0,
1636,0,1955,2,
1858,0,1956,2,
1620,1389,1957,0,
1628,1395,1958,0,
1637,0,1959,2,
1639,0,1960,2,
1679,0,1961,2,
1648,0,1962,2,
1680,0,1963,2,
1628,1405,1964,0,
1663,0,1965,2,
1498,1632,1966,0,
1669,0,1967,2,
1665,0,1968,2,
1628,1520,1969,0,
1624,0,1970,2,
1628,1389,1971,0,
1406,1632,1972,0,
1671,0,1973,2,
1620,1496,1974,0,
1389,1632,1975,0,
1654,0,1976,2,
1628,1512,1977,0,
1650,0,1978,2,
1645,0,1979,2,
1659,0,1980,2,
1657,0,1981,2,
1672,0,1982,2,
1674,0,1983,2,
1853,0,1984,2,
1681,0,1985,2,
1646,0,1986,2,
1649,0,1987,2,
1678,0,1988,2,
1666,0,1989,2,
1667,0,1990,2,
1668,0,1991,2,
1661,0,1992,2,
1682,0,1993,2,
1652,0,1994,2,
1662,0,1995,2,
1670,0,1996,2,
1520,1632,1997,0,
1677,0,1998,2,
1676,0,1999,2,
1504,1632,2000,0,
1660,0,2001,2,
1651,0,2002,2,
1653,0,2003,2,
1658,0,2004,2,
1628,1523,2005,0,
1675,0,2006,2,
1628,1498,2007,0,
1523,1632,2008,0,
1673,0,2009,2,
1664,0,2010,2,
1628,1524,2011,0,
1655,0,2012,2,
1656,0,2013,2,
1683,0,2014,2,
1691,0,2015,2,
1684,0,2016,2,
1711,0,2017,2,
1686,0,2018,2,
1620,1391,2019,0,
1685,0,2020,2,
1743,0,2021,2,
1700,0,2022,2,
1709,0,2023,2,
1741,0,2024,2,
1697,0,2025,2,
1620,1520,2026,0,
1712,0,2027,2,
1738,0,2028,2,
1739,0,2029,2,
1695,0,2030,2,
1737,0,2031,2,
1704,0,2032,2,
1694,0,2033,2,
1736,0,2034,2,
1728,0,2035,2,
1631,0,2036,2,
1623,0,2037,2,
1716,0,2038,2,
1745,0,2039,2,
1701,0,2040,2,
1698,0,2041,2,
1729,0,2042,2,
1742,0,2043,2,
1854,0,2044,2,
1622,0,2045,2,
1625,0,2046,2,
1626,0,2047,2,
1404,1632,2048,0,
1699,0,2049,2,
1702,0,2050,2,
1391,1632,2051,0,
1395,1632,2052,0,
1705,0,2053,2,
1707,0,2054,2,
1687,0,2055,2,
1703,0,2056,2,
1690,0,2057,2,
1746,0,2058,2,
1696,0,2059,2,
1628,1406,2060,0,
1744,0,2061,2,
1688,0,2062,2,
1710,0,2063,2,
1693,0,2064,2,
1706,0,2065,2,
1692,0,2066,2,
1689,0,2067,2,
1708,0,2068,2,
1718,0,2069,2,
1720,0,2070,2,
1735,0,2071,2,
1732,0,2072,2,
1748,0,2073,2,
1747,0,2074,2,
1726,0,2075,2,
1719,0,2076,2,
1731,0,2077,2,
1725,0,2078,2,
1723,0,2079,2,
1749,0,2080,2,
1715,0,2081,2,
1733,0,2082,2,
1740,0,2083,2,
1734,0,2084,2,
1730,0,2085,2,
1717,0,2086,2,
1721,0,2087,2,
1628,1391,2088,0,
1724,0,2089,2,
1713,0,2090,2,
1714,0,2091,2,
1722,0,2092,2,
1727,0,2093,2,
1784,0,2094,2,
1779,0,2095,2,
1790,0,2096,2,
1783,0,2097,2,
1796,0,2098,2,
1777,0,2099,2,
1514,1632,2100,0,
1792,0,2101,2,
1774,0,2102,2,
1793,0,2103,2,
1788,0,2104,2,
1786,0,2105,2,
1630,0,2106,2,
1772,0,2107,2,
1760,0,2108,2,
1496,1632,2109,0,
1761,0,2110,2,
1785,0,2111,2,
1789,0,2112,2,
1768,0,2113,2,
1767,0,2114,2,
1795,0,2115,2,
1769,0,2116,2,
1770,0,2117,2,
1758,0,2118,2,
1765,0,2119,2,
1766,0,2120,2,
1764,0,2121,2,
1794,0,2122,2,
1763,0,2123,2,
1797,0,2124,2,
1762,0,2125,2,
1759,0,2126,2,
1751,0,2127,2,
1787,0,2128,2,
1750,0,2129,2,
1755,0,2130,2,
1754,0,2131,2,
1756,0,2132,2,
1791,1031,2133,0,
1780,0,2134,2,
1775,0,2135,2,
1773,0,2136,2,
1752,0,2137,2,
1757,0,2138,2,
1753,0,2139,2,
1814,0,2140,2,
1813,0,2141,2,
1811,1409,2142,0,
1809,0,2143,2,
1803,0,2144,2,
1620,1395,2145,0,
1800,0,2146,2,
1802,0,2147,2,
1186,1810,2148,0,
1806,0,2149,2,
1812,0,2150,2,
1807,0,2151,2,
1524,1632,2152,0,
1808,0,2153,2,
1798,0,2154,2,
1799,0,2155,2,
1801,0,2156,2,
1819,0,2157,2,
1817,1040,2158,0,
1852,0,2159,2,
1818,0,2160,2,
1822,0,2161,2,
1815,0,2162,2,
1821,0,2163,2,
1820,0,2164,2,
1816,0,2165,2,
1825,0,2166,2,
1824,0,2167,2,
1805,1826,2168,0,
1828,0,2169,2,
1827,1538,2170,1,
1827,0,2171,2,
1620,1523,2172,0,
1628,1404,2173,0,
1829,0,2174,2,
1832,0,2175,2,
1835,0,2176,2,
1833,1834,2177,0,
1837,1838,2178,0,
1423,1839,2179,0,
1841,1842,2180,0,
1776,1778,2181,0,
1619,0,2182,2,
1619,1426,2183,0,
1296,1844,2184,0,
1781,1805,2185,0,
902,1845,2186,1,
2186,31,2187,0,
902,2187,2188,1,
1848,0,2189,2,
1556,1850,2190,1,
1850,1556,2191,0,
1617,822,2192,0,
1844,51,2193,0,
1620,1498,2194,0,
1628,1383,2195,0,
1620,1406,2196,0,
1620,1524,2197,0,
1860,1093,2198,1,
1862,0,2199,2,
1861,1104,2200,1,
1864,1120,2201,1,
1093,1860,2202,0,
1868,1133,2203,1,
1865,0,2204,2,
1866,1127,2205,1,
1867,1129,2206,1,
1869,0,2207,2,
1870,1143,2208,1,
1867,0,2209,2,
1865,1574,2210,0,
1868,0,2211,2,
1871,1052,2212,0,
1873,1574,2213,0,
1127,1866,2214,0,
1458,1865,2215,0,
1872,1010,2216,0,
1861,0,2217,2,
1875,0,2218,2,
1124,1877,2219,0,
1884,1049,2220,0,
1469,1882,2221,0,
1883,1164,2222,1,
1870,0,2223,2,
1879,0,2224,2,
1878,0,2225,2,
1115,1876,2226,0,
1881,0,2227,2,
1363,1880,2228,1,
1892,0,2229,2,
1887,0,2230,2,
1475,1880,2231,0,
1120,1864,2232,0,
1888,1593,2233,0,
1874,0,2234,2,
1893,0,2235,2,
1885,1037,2236,0,
1890,0,2237,2,
1891,0,2238,2,
1886,0,2239,2,
1883,1037,2240,0,
1885,1270,2241,1,
1894,0,2242,2,
1897,0,2243,2,
1900,0,2244,2,
1904,0,2245,2,
1902,1171,2246,1,
1903,1037,2247,0,
1898,0,2248,2,
1901,0,2249,2,
1905,1352,2250,0,
1899,0,2251,2,
1902,0,2252,2,
1373,1908,2253,0,
1906,1175,2254,1,
1907,0,2255,2,
1906,1037,2256,0,
1909,0,2257,2,
1910,1488,2258,1,
1911,0,2259,2,
1913,0,2260,2,
1912,1052,2261,0,
1910,0,2262,2,
1914,0,2263,2,
1916,0,2264,2,
1918,0,2265,2,
1616,1917,2266,1,
1925,1919,2267,0,
2141,1992,2268,0,
2154,2094,2269,0,
2195,0,2270,2,
2162,2150,2271,0,
870,2192,2272,1,
2184,1929,2273,0,
1928,1394,2274,0,
1924,1933,2275,0,
1968,2126,2276,0,
2194,0,2277,2,
1771,2159,2278,0,
1440,1928,2279,0,
2037,2036,2280,0,
1935,0,2281,2,
1934,0,2282,2,
1946,0,2283,2,
1957,0,2284,2,
1943,0,2285,2,
1948,0,2286,2,
1954,0,2287,2,
1921,0,2288,2,
1942,0,2289,2,
1937,0,2290,2,
1947,0,2291,2,
1940,0,2292,2,
1958,0,2293,2,
1953,0,2294,2,
1938,1939,2295,0,
1959,1956,2296,0,
1951,1955,2297,0,
1941,1936,2298,0,
1950,1647,2299,0,
1945,1949,2300,0,
1944,0,2301,2,
1926,0,2302,2,
2010,2002,2303,0,
1996,1989,2304,0,
2011,0,2305,2,
1961,2006,2306,0,
1976,1970,2307,0,
1964,0,2308,2,
2007,0,2309,2,
1990,1981,2310,0,
1988,2003,2311,0,
1985,2009,2312,0,
2005,0,2313,2,
1987,1992,2314,0,
1982,1936,2315,0,
1995,1984,2316,0,
1983,1993,2317,0,
1986,1994,2318,0,
1999,1993,2319,0,
1974,0,2320,2,
1979,1924,2321,0,
1969,0,2322,2,
2000,0,2323,2,
1971,0,2324,2,
1997,0,2325,2,
2196,0,2326,2,
1977,0,2327,2,
1975,0,2328,2,
1972,0,2329,2,
2008,0,2330,2,
1966,0,2331,2,
2197,0,2332,2,
2013,2012,2333,0,
2016,2042,2334,0,
2029,2058,2335,0,
2026,0,2336,2,
2030,2066,2337,0,
2048,0,2338,2,
2087,2017,2339,0,
2047,2036,2340,0,
2030,2041,2341,0,
2052,0,2342,2,
2064,2071,2343,0,
2051,0,2344,2,
2086,2057,2345,0,
2018,2074,2346,0,
2021,1981,2347,0,
2014,2056,2348,0,
2028,2082,2349,0,
2093,2089,2350,0,
2025,1924,2351,0,
2058,2045,2352,0,
2015,2068,2353,0,
1967,2077,2354,0,
1980,2067,2355,0,
2083,1931,2356,0,
1771,2059,2357,0,
1647,2066,2358,0,
2020,1992,2359,0,
2041,1982,2360,0,
2046,2091,2361,0,
2055,2039,2362,0,
2037,1960,2363,0,
2060,0,2364,2,
2081,2061,2365,0,
2090,2065,2366,0,
2023,2073,2367,0,
2025,2070,2368,0,
2053,1993,2369,0,
1922,0,2370,2,
2076,1776,2371,0,
2062,2050,2372,0,
2040,2049,2373,0,
2019,0,2374,2,
2088,0,2375,2,
2097,2135,2376,0,
2118,2002,2377,0,
2094,2120,2378,0,
2118,2111,2379,0,
2096,1805,2380,0,
2138,2115,2381,0,
1616,1917,2382,0,
1805,1950,2383,0,
2123,2102,2384,0,
2133,0,2385,2,
2104,1920,2386,0,
2121,2134,2387,0,
1985,2130,2388,0,
2045,1984,2389,0,
2055,1925,2390,0,
2080,2122,2391,0,
2084,2117,2392,0,
1963,2082,2393,0,
2128,2089,2394,0,
2108,2099,2395,0,
2104,2044,2396,0,
1970,1983,2397,0,
2137,2136,2398,0,
2035,2112,2399,0,
1963,2069,2400,0,
2126,2045,2401,0,
2009,2047,2402,0,
2071,2082,2403,0,
1973,1920,2404,0,
1980,1973,2405,0,
2127,2018,2406,0,
2054,2053,2407,0,
2063,2086,2408,0,
2009,2091,2409,0,
2100,0,2410,2,
1962,2043,2411,0,
2114,2124,2412,0,
2125,2044,2413,0,
2033,2039,2414,0,
2020,1956,2415,0,
2109,0,2416,2,
2090,2103,2417,0,
1970,2110,2418,0,
1973,2115,2419,0,
2131,2113,2420,0,
1960,2151,2421,0,
2127,2128,2422,0,
2076,1949,2423,0,
2122,2013,2424,0,
2092,2079,2425,0,
2016,2044,2426,0,
1647,2006,2427,0,
1991,2103,2428,0,
2065,2149,2429,0,
2152,0,2430,2,
2142,0,2431,2,
2143,1961,2432,0,
2140,1927,2433,0,
2130,2083,2434,0,
2097,2058,2435,0,
2123,2156,2436,0,
2139,2059,2437,0,
2127,2010,2438,0,
2139,2083,2439,0,
2098,2129,2440,0,
1950,1941,2441,0,
2096,1647,2442,0,
2138,2059,2443,0,
2148,0,2444,2,
1986,2024,2445,0,
2101,1919,2446,0,
1938,2123,2447,0,
2153,2119,2448,0,
2127,1995,2449,0,
2145,0,2450,2,
2043,2074,2451,0,
2150,1962,2452,0,
2143,1804,2453,0,
2132,2084,2454,0,
2040,2069,2455,0,
2085,2003,2456,0,
2108,2155,2457,0,
2038,2151,2458,0,
1978,2036,2459,0,
2028,2062,2460,0,
1987,2041,2461,0,
1981,2013,2462,0,
2099,2061,2463,0,
2038,2074,2464,0,
2157,1919,2465,0,
2132,1999,2466,0,
2066,1919,2467,0,
2159,1984,2468,0,
2064,2159,2469,0,
2162,2122,2470,0,
2163,1993,2471,0,
2138,2149,2472,0,
1980,2101,2473,0,
2155,2112,2474,0,
1781,1945,2475,0,
2103,1965,2476,0,
1949,2095,2477,0,
2080,1919,2478,0,
2098,1981,2479,0,
1950,2155,2480,0,
2094,2065,2481,0,
2059,2160,2482,0,
2091,2082,2483,0,
2146,2072,2484,0,
2149,2082,2485,0,
2140,1999,2486,0,
1994,1936,2487,0,
1927,1939,2488,0,
2158,1025,2489,0,
2141,1776,2490,0,
2131,2164,2491,0,
2121,2136,2492,0,
2020,1959,2493,0,
1938,2141,2494,0,
2054,2089,2495,0,
1939,2047,2496,0,
1983,2165,2497,0,
1951,2067,2498,0,
2159,2117,2499,0,
2096,1965,2500,0,
1996,2118,2501,0,
1967,2102,2502,0,
2144,2012,2503,0,
2107,2165,2504,0,
1995,2093,2505,0,
1771,2106,2506,0,
1963,2030,2507,0,
1992,2167,2508,0,
1781,2057,2509,0,
1804,2084,2510,0,
1980,2085,2511,0,
1951,2137,2512,0,
1941,1956,2513,0,
2020,1826,2514,0,
2072,2036,2515,0,
2106,1983,2516,0,
2097,2009,2517,0,
2161,1978,2518,0,
1951,2056,2519,0,
1805,2165,2520,0,
2138,1920,2521,0,
2166,2045,2522,0,
2122,2002,2523,0,
2161,2081,2524,0,
2172,0,2525,2,
2027,2034,2526,0,
1961,2045,2527,0,
2168,2134,2528,0,
2017,1996,2529,0,
2032,1982,2530,0,
1967,2111,2531,0,
2053,2110,2532,0,
2120,2157,2533,0,
2171,1830,2534,0,
1945,2039,2535,0,
2044,2073,2536,0,
2087,2094,2537,0,
2024,1984,2538,0,
2038,2086,2539,0,
2087,2035,2540,0,
2025,1956,2541,0,
1996,2116,2542,0,
2173,0,2543,2,
2033,1996,2544,0,
2053,2073,2545,0,
2164,2146,2546,0,
2114,2068,2547,0,
2111,2083,2548,0,
2103,2117,2549,0,
2162,2022,2550,0,
2017,2054,2551,0,
1920,2085,2552,0,
1960,2169,2553,0,
1976,2086,2554,0,
2022,2147,2555,0,
2119,1927,2556,0,
2022,1927,2557,0,
2099,2111,2558,0,
1776,2067,2559,0,
2107,2125,2560,0,
2090,2084,2561,0,
2143,1973,2562,0,
2094,2024,2563,0,
1978,1999,2564,0,
2147,2071,2565,0,
2129,2063,2566,0,
1960,2129,2567,0,
2037,2004,2568,0,
2118,2086,2569,0,
1998,2105,2570,0,
2123,2116,2571,0,
2149,2117,2572,0,
1951,1999,2573,0,
1963,2136,2574,0,
1771,2160,2575,0,
2056,2111,2576,0,
2018,2083,2577,0,
1986,2044,2578,0,
2125,1965,2579,0,
1963,2069,2580,0,
2017,2064,2581,0,
2049,2091,2582,0,
2090,2113,2583,0,
1980,2001,2584,0,
1987,2065,2585,0,
2149,1931,2586,0,
2127,2027,2587,0,
2134,2165,2588,0,
2167,2053,2589,0,
1967,2136,2590,0,
2123,2017,2591,0,
2161,1960,2592,0,
2123,2006,2593,0,
2031,2092,2594,0,
2016,2089,2595,0,
2066,1945,2596,0,
1985,2066,2597,0,
2087,2034,2598,0,
1996,2111,2599,0,
2169,2075,2600,0,
1967,2061,2601,0,
2096,2163,2602,0,
2016,2042,2603,0,
2023,2099,2604,0,
1998,2018,2605,0,
2139,1992,2606,0,
2137,2124,2607,0,
2128,2013,2608,0,
1804,2003,2609,0,
2126,2093,2610,0,
2163,1956,2611,0,
2167,1989,2612,0,
2137,2004,2613,0,
2124,2128,2614,0,
2130,1924,2615,0,
2139,2028,2616,0,
2175,1317,2617,0,
2104,2053,2618,0,
2119,2125,2619,0,
2020,1924,2620,0,
2069,2157,2621,0,
1989,2064,2622,0,
2138,1993,2623,0,
1955,2165,2624,0,
2053,2120,2625,0,
2049,2122,2626,0,
2032,2167,2627,0,
2015,1970,2628,0,
2082,2036,2629,0,
2028,2032,2630,0,
2047,2073,2631,0,
2054,2110,2632,0,
2113,2160,2633,0,
2140,1987,2634,0,
1988,2062,2635,0,
2025,2155,2636,0,
1986,2045,2637,0,
1976,1988,2638,0,
2130,2110,2639,0,
2086,2111,2640,0,
1983,2115,2641,0,
1996,2122,2642,0,
2039,2002,2643,0,
2092,1647,2644,0,
1776,2080,2645,0,
2174,2102,2646,0,
2054,2073,2647,0,
2023,1970,2648,0,
2135,2047,2649,0,
2111,2115,2650,0,
2014,2144,2651,0,
2130,1647,2652,0,
2164,2061,2653,0,
2033,2034,2654,0,
1978,2150,2655,0,
2031,2153,2656,0,
2083,2036,2657,0,
2140,2136,2658,0,
2027,2001,2659,0,
2040,2066,2660,0,
1976,2075,2661,0,
2174,2153,2662,0,
2150,2159,2663,0,
2175,1317,2664,1,
1976,1951,2665,0,
2055,1983,2666,0,
2021,2119,2667,0,
2041,2022,2668,0,
2177,0,2669,2,
2113,2013,2670,0,
2116,2075,2671,0,
1961,1936,2672,0,
1951,2028,2673,0,
2162,1968,2674,0,
2163,2095,2675,0,
2010,2078,2676,0,
1978,2174,2677,0,
1647,2013,2678,0,
2032,2128,2679,0,
2055,2114,2680,0,
2087,2070,2681,0,
2111,2078,2682,0,
2020,2070,2683,0,
2121,2064,2684,0,
1995,1939,2685,0,
2098,2056,2686,0,
2134,1952,2687,0,
2104,1925,2688,0,
2018,2093,2689,0,
1967,1968,2690,0,
1986,1805,2691,0,
2095,1941,2692,0,
2114,2151,2693,0,
2010,2146,2694,0,
2018,1991,2695,0,
1980,2151,2696,0,
2018,2067,2697,0,
2140,2061,2698,0,
2095,2012,2699,0,
2150,2065,2700,0,
2096,2074,2701,0,
1996,2071,2702,0,
2169,2092,2703,0,
2135,2067,2704,0,
2015,2101,2705,0,
2014,1950,2706,0,
2055,2159,2707,0,
2077,1959,2708,0,
2031,2102,2709,0,
2153,2006,2710,0,
1771,2113,2711,0,
2002,2157,2712,0,
1982,2157,2713,0,
2071,2149,2714,0,
2069,2086,2715,0,
2164,2102,2716,0,
2022,2069,2717,0,
1999,2122,2718,0,
2161,2127,2719,0,
2071,2093,2720,0,
1950,2073,2721,0,
2178,0,2722,2,
2032,1778,2723,0,
2069,2057,2724,0,
2096,2129,2725,0,
2028,2131,2726,0,
2134,1925,2727,0,
1996,2001,2728,0,
2153,1933,2729,0,
1988,1981,2730,0,
2139,2054,2731,0,
2161,2077,2732,0,
1960,2157,2733,0,
1998,2166,2734,0,
2070,2101,2735,0,
1962,2082,2736,0,
2146,2149,2737,0,
2038,2006,2738,0,
2141,2107,2739,0,
2029,2020,2740,0,
1996,2075,2741,0,
1919,1965,2742,0,
2162,2081,2743,0,
2028,2003,2744,0,
2006,2101,2745,0,
2097,1939,2746,0,
2016,1978,2747,0,
2169,2167,2748,0,
1980,2128,2749,0,
1949,1955,2750,0,
2040,2159,2751,0,
2096,2091,2752,0,
2058,2081,2753,0,
1781,1994,2754,0,
2155,1924,2755,0,
2155,2050,2756,0,
1781,2090,2757,0,
2136,2086,2758,0,
2179,0,2759,2,
2033,1967,2760,0,
2070,2071,2761,0,
2068,2075,2762,0,
2037,1951,2763,0,
2055,1931,2764,0,
2029,1938,2765,0,
2035,2155,2766,0,
2021,1778,2767,0,
2137,2116,2768,0,
2156,2122,2769,0,
2028,1804,2770,0,
1999,2151,2771,0,
1991,1995,2772,0,
1979,2046,2773,0,
2135,2156,2774,0,
1927,2002,2775,0,
2180,0,2776,2,
2138,1933,2777,0,
1999,1965,2778,0,
2029,1999,2779,0,
1771,2061,2780,0,
2034,2118,2781,0,
2010,2057,2782,0,
2017,1962,2783,0,
1978,2010,2784,0,
2030,2053,2785,0,
2053,2045,2786,0,
1968,1982,2787,0,
2038,2099,2788,0,
2018,1984,2789,0,
2132,2122,2790,0,
1967,1983,2791,0,
1987,2089,2792,0,
2118,2149,2793,0,
1951,2102,2794,0,
1990,2116,2795,0,
2137,2118,2796,0,
2123,1956,2797,0,
2016,2091,2798,0,
1647,2107,2799,0,
1826,2035,2800,0,
2035,2046,2801,0,
2129,2103,2802,0,
2139,2132,2803,0,
2055,2136,2804,0,
2144,2149,2805,0,
2034,1952,2806,0,
2024,2016,2807,0,
2042,2085,2808,0,
1804,2042,2809,0,
2114,2113,2810,0,
2074,2073,2811,0,
2131,2024,2812,0,
2016,1995,2813,0,
2113,2083,2814,0,
1961,2104,2815,0,
2139,2036,2816,0,
2031,2135,2817,0,
1986,2066,2818,0,
2068,1952,2819,0,
2058,2070,2820,0,
1778,2036,2821,0,
2104,2089,2822,0,
2125,1959,2823,0,
2055,2056,2824,0,
2143,2006,2825,0,
2143,2097,2826,0,
2022,2021,2827,0,
1968,2001,2828,0,
2068,2001,2829,0,
2029,2101,2830,0,
1989,2159,2831,0,
2018,2090,2832,0,
2162,2057,2833,0,
1826,1936,2834,0,
1979,2024,2835,0,
2125,1919,2836,0,
2030,2035,2837,0,
2085,1959,2838,0,
2062,2077,2839,0,
2006,2082,2840,0,
1805,1999,2841,0,
2049,2136,2842,0,
2150,2084,2843,0,
2064,2084,2844,0,
2063,1999,2845,0,
2116,2113,2846,0,
1988,2116,2847,0,
1979,2130,2848,0,
2138,2076,2849,0,
2162,2101,2850,0,
2056,2146,2851,0,
1998,2169,2852,0,
2106,2009,2853,0,
2068,2167,2854,0,
1970,1994,2855,0,
2094,2135,2856,0,
2169,2124,2857,0,
2174,2115,2858,0,
2136,2156,2859,0,
1781,2127,2860,0,
2094,2006,2861,0,
2023,1976,2862,0,
1962,2151,2863,0,
2015,1990,2864,0,
1976,2105,2865,0,
2136,2083,2866,0,
2054,1955,2867,0,
2130,2050,2868,0,
1962,1968,2869,0,
1978,2082,2870,0,
2137,2147,2871,0,
2058,2073,2872,0,
1945,2078,2873,0,
2120,1941,2874,0,
1992,1991,2875,0,
1990,1989,2876,0,
2096,1949,2877,0,
1826,1941,2878,0,
2147,2105,2879,0,
2075,1931,2880,0,
1961,2150,2881,0,
2028,2067,2882,0,
1968,2065,2883,0,
1970,2001,2884,0,
2073,1965,2885,0,
2166,2075,2886,0,
1805,2101,2887,0,
2154,2092,2888,0,
1939,2074,2889,0,
2018,1967,2890,0,
1925,1956,2891,0,
2119,2122,2892,0,
1988,2071,2893,0,
1991,2043,2894,0,
2163,2045,2895,0,
2020,2120,2896,0,
1805,2022,2897,0,
2131,2061,2898,0,
2067,2001,2899,0,
2161,2103,2900,0,
1776,1981,2901,0,
2091,2101,2902,0,
2031,2041,2903,0,
1961,1920,2904,0,
1962,1983,2905,0,
2130,2157,2906,0,
1983,2079,2907,0,
2092,2072,2908,0,
1771,2049,2909,0,
2087,1986,2910,0,
1985,1936,2911,0,
1973,1778,2912,0,
2076,2002,2913,0,
1950,2107,2914,0,
2027,1970,2915,0,
2144,2057,2916,0,
2156,2067,2917,0,
1973,1941,2918,0,
2033,1919,2919,0,
2154,2135,2920,0,
1970,1931,2921,0,
1968,2144,2922,0,
1985,2012,2923,0,
2182,1025,2924,0,
1955,2044,2925,0,
1209,2182,2926,0,
2028,2013,2927,0,
2123,1949,2928,0,
2041,2081,2929,0,
2028,2079,2930,0,
2121,2126,2931,0,
2054,1826,2932,0,
2117,2115,2933,0,
2037,2059,2934,0,
2121,2161,2935,0,
2072,1933,2936,0,
2025,2029,2937,0,
1996,2164,2938,0,
2140,2141,2939,0,
2141,1924,2940,0,
1963,1994,2941,0,
1945,2043,2942,0,
1988,2106,2943,0,
2025,2074,2944,0,
2075,1994,2945,0,
2144,1955,2946,0,
2059,1983,2947,0,
2010,2135,2948,0,
2129,2163,2949,0,
2006,2119,2950,0,
1985,1950,2951,0,
1980,2044,2952,0,
2010,1936,2953,0,
2105,2004,2954,0,
2033,2056,2955,0,
2108,1924,2956,0,
1945,1956,2957,0,
2092,2126,2958,0,
2023,2174,2959,0,
2136,2147,2960,0,
2107,1826,2961,0,
1988,2096,2962,0,
2032,2072,2963,0,
2154,2099,2964,0,
1952,2160,2965,0,
2134,1919,2966,0,
2023,1989,2967,0,
2137,1931,2968,0,
2042,2153,2969,0,
2162,2137,2970,0,
2128,2167,2971,0,
1998,2144,2972,0,
2120,2112,2973,0,
1999,2075,2974,0,
2015,2166,2975,0,
1938,2097,2976,0,
2014,1781,2977,0,
2167,2160,2978,0,
2098,2021,2979,0,
2143,2146,2980,0,
2174,2159,2981,0,
2025,2078,2982,0,
2014,2032,2983,0,
2159,2071,2984,0,
2174,2075,2985,0,
2150,1963,2986,0,
2025,2101,2987,0,
1771,1993,2988,0,
2006,2155,2989,0,
1991,2062,2990,0,
2135,2081,2991,0,
2031,2116,2992,0,
2037,1993,2993,0,
1987,2090,2994,0,
1973,2077,2995,0,
2125,1924,2996,0,
1804,2157,2997,0,
2119,2078,2998,0,
2076,2081,2999,0,
2090,1982,3000,0,
2003,2074,3001,0,
2017,2079,3002,0,
2138,2124,3003,0,
2143,2035,3004,0,
2027,2061,3005,0,
2058,2024,3006,0,
1949,2157,3007,0,
2004,2102,3008,0,
1976,1990,3009,0,
2017,2083,3010,0,
2040,2166,3011,0,
2014,2129,3012,0,
2143,1920,3013,0,
2130,1941,3014,0,
2021,1927,3015,0,
1993,2122,3016,0,
2129,2107,3017,0,
2114,1967,3018,0,
2126,2110,3019,0,
2113,2156,3020,0,
2046,1919,3021,0,
2054,2044,3022,0,
1962,2166,3023,0,
1925,2165,3024,0,
2165,2043,3025,0,
2123,2121,3026,0,
2151,1984,3027,0,
2084,2082,3028,0,
1980,1998,3029,0,
1986,2080,3030,0,
2044,1919,3031,0,
2117,2004,3032,0,
2079,2115,3033,0,
1981,1927,3034,0,
2030,1994,3035,0,
1999,1993,3036,0,
2062,2078,3037,0,
1988,1927,3038,0,
1826,2095,3039,0,
2090,2057,3040,0,
2025,2087,3041,0,
2162,2037,3042,0,
2031,2098,3043,0,
1980,2143,3044,0,
2027,1991,3045,0,
1951,2113,3046,0,
2059,2134,3047,0,
1981,2063,3048,0,
2065,1925,3049,0,
1989,2001,3050,0,
2010,2072,3051,0,
2080,1955,3052,0,
2122,1927,3053,0,
2131,1776,3054,0,
2037,1983,3055,0,
2095,2101,3056,0,
1985,2101,3057,0,
2114,1968,3058,0,
1938,2076,3059,0,
2039,2074,3060,0,
2069,2165,3061,0,
2098,2137,3062,0,
1950,2012,3063,0,
1938,2081,3064,0,
1952,2146,3065,0,
2099,2105,3066,0,
2107,2153,3067,0,
2131,2147,3068,0,
2110,1956,3069,0,
2061,2075,3070,0,
2118,2057,3071,0,
2031,2083,3072,0,
2162,2080,3073,0,
1961,1991,3074,0,
2029,2006,3075,0,
2049,2113,3076,0,
2015,2174,3077,0,
2154,1999,3078,0,
2126,2160,3079,0,
2090,2069,3080,0,
2144,2003,3081,0,
1962,2002,3082,0,
1771,2111,3083,0,
1826,2050,3084,0,
1995,2080,3085,0,
1927,2071,3086,0,
1949,2039,3087,0,
2140,2090,3088,0,
1776,2086,3089,0,
2030,2134,3090,0,
1990,2069,3091,0,
1978,1981,3092,0,
2059,2093,3093,0,
2035,2163,3094,0,
2146,2001,3095,0,
1976,1989,3096,0,
2123,2167,3097,0,
2189,1849,3098,0,
2188,0,3099,2,
904,2190,3100,1,
3100,31,3101,0,
904,3101,3102,1,
2037,1804,3103,0,
2031,2123,3104,0,
2154,2071,3105,0,
2098,2084,3106,0,
2114,2106,3107,0,
2191,1851,3108,1,
2054,2101,3109,0,
2140,2093,3110,0,
2065,2043,3111,0,
2046,2078,3112,0,
1923,822,3113,1,
2191,1851,3114,0,
2123,1931,3115,0,
2091,1965,3116,0,
1932,0,3117,2,
1778,2085,3118,0,
1985,2120,3119,0,
2193,1559,3120,0,
2045,2047,3121,0,
2184,1559,3122,0,
2198,1107,3123,1,
1863,2199,3124,0,
2200,1123,3125,1,
2201,1130,3126,1,
2206,1250,3127,1,
2202,0,3128,2,
1107,2198,3129,0,
2204,1574,3130,0,
2205,1146,3131,1,
2203,1147,3132,1,
2209,1046,3133,0,
2204,1577,3134,0,
2200,0,3135,2,
2206,0,3136,2,
2212,1049,3137,0,
1146,2205,3138,0,
2211,1028,3139,0,
2210,1350,3140,0,
2208,0,3141,2,
2203,0,3142,2,
2201,1037,3143,0,
2216,0,3144,2,
2215,0,3145,2,
1104,2217,3146,0,
2213,0,3147,2,
2214,0,3148,2,
2218,1360,3149,0,
2226,0,3150,2,
2228,0,3151,2,
2222,0,3152,2,
2219,0,3153,2,
1143,2223,3154,0,
2220,1040,3155,0,
2208,1167,3156,1,
2221,0,3157,2,
2239,1896,3158,0,
1479,2222,3159,0,
2240,1052,3160,0,
1480,2235,3161,0,
2232,0,3162,2,
2231,0,3163,2,
1895,2230,3164,0,
1595,2237,3165,0,
2236,1076,3166,0,
2221,2228,3167,0,
2241,1170,3168,1,
2247,1031,3169,0,
1170,2241,3170,0,
2246,0,3171,2,
1603,2248,3172,0,
2246,1485,3173,1,
1171,2252,3174,0,
2254,2253,3175,1,
2253,0,3176,2,
2256,1025,3177,0,
1608,2257,3178,0,
2261,1025,3179,0,
2262,1611,3180,0,
1378,2260,3181,0,
1615,2264,3182,0,
1647,2370,3183,0,
2106,2302,3184,0,
3021,2044,3185,0,
1920,2270,3186,0,
2288,1970,3187,0,
2275,1956,3188,0,
2543,2332,3189,0,
2924,0,3190,2,
2926,0,3191,2,
3114,3113,3192,0,
2272,1923,3193,0,
2281,1952,3194,0,
1960,2282,3195,0,
2296,1965,3196,0,
1961,2287,3197,0,
2288,2001,3198,0,
2301,1994,3199,0,
1962,2289,3200,0,
2298,2292,3201,0,
2297,2004,3202,0,
1998,2290,3203,0,
2286,1967,3204,0,
2300,2294,3205,0,
1978,2293,3206,0,
1980,2285,3207,0,
1991,2291,3208,0,
2299,1973,3209,0,
1968,2302,3210,0,
1963,2283,3211,0,
2284,2003,3212,0,
2316,2032,3213,0,
2321,2319,3214,0,
1979,2285,3215,0,
2332,2320,3216,0,
2293,2079,3217,0,
2323,1965,3218,0,
2304,2310,3219,0,
2327,2039,3220,0,
1781,2325,3221,0,
2270,1959,3222,0,
2314,2080,3223,0,
2031,2324,3224,0,
2306,2063,3225,0,
2333,2024,3226,0,
2303,2084,3227,0,
2326,2012,3228,0,
2054,2328,3229,0,
2322,2327,3230,0,
2305,2332,3231,0,
2318,2072,3232,0,
2033,2302,3233,0,
2331,2044,3234,0,
2034,2277,3235,0,
2309,2043,3236,0,
2270,2047,3237,0,
2322,2283,3238,0,
2324,2063,3239,0,
1778,2330,3240,0,
2326,2075,3241,0,
2035,2329,3242,0,
2322,2069,3243,0,
2313,2081,3244,0,
2301,2078,3245,0,
2355,2032,3246,0,
2270,2117,3247,0,
2331,2076,3248,0,
2373,2001,3249,0,
2024,2326,3250,0,
2375,2283,3251,0,
2352,2054,3252,0,
2348,1968,3253,0,
2327,2119,3254,0,
2372,2101,3255,0,
1939,2342,3256,0,
2098,2283,3257,0,
2364,2324,3258,0,
2370,2374,3259,0,
2025,2344,3260,0,
2107,2320,3261,0,
2363,2095,3262,0,
2366,2037,3263,0,
2132,2336,3264,0,
2362,2106,3265,0,
2359,2033,3266,0,
2354,2116,3267,0,
2340,2102,3268,0,
2368,2036,3269,0,
2022,2338,3270,0,
2365,1989,3271,0,
2334,2097,3272,0,
2364,2079,3273,0,
2349,2347,3274,0,
2346,2105,3275,0,
2361,2337,3276,0,
2419,2107,3277,0,
2399,2398,3278,0,
2154,2305,3279,0,
2416,1968,3280,0,
2409,2031,3281,0,
1535,2385,3282,0,
2309,2289,3283,0,
2412,2324,3284,0,
1778,2332,3285,0,
2285,1925,3286,0,
2377,2059,3287,0,
2415,2420,3288,0,
2380,2030,3289,0,
2413,2411,3290,0,
2417,2138,3291,0,
1965,2342,3292,0,
2391,2139,3293,0,
2406,2405,3294,0,
2331,2410,3295,0,
2325,2305,3296,0,
2392,2397,3297,0,
2323,1939,3298,0,
2395,2155,3299,0,
2382,0,3300,2,
2400,2387,3301,0,
2408,2418,3302,0,
2394,2149,3303,0,
2410,2323,3304,0,
2389,1925,3305,0,
2396,2156,3306,0,
2388,2402,3307,0,
1995,2289,3308,0,
2370,2134,3309,0,
2407,1952,3310,0,
2428,1998,3311,0,
2364,2046,3312,0,
2330,2309,3313,0,
2423,2065,3314,0,
2364,2081,3315,0,
2451,2448,3316,0,
2330,2344,3317,0,
2077,2329,3318,0,
2437,1951,3319,0,
2442,2453,3320,0,
2430,1952,3321,0,
2438,2165,3322,0,
2435,2161,3323,0,
2089,2342,3324,0,
2439,2017,3325,0,
2422,2336,3326,0,
2021,2344,3327,0,
2432,2290,3328,0,
2450,2078,3329,0,
1781,2293,3330,0,
2044,2329,3331,0,
2447,2096,3332,0,
2050,2338,3333,0,
1961,2293,3334,0,
1536,2431,3335,0,
2429,2126,3336,0,
2452,2129,3337,0,
2308,2103,3338,0,
2305,2135,3339,0,
2331,2010,3340,0,
2436,2164,3341,0,
1941,2338,3342,0,
2440,2132,3343,0,
2374,2065,3344,0,
2485,2061,3345,0,
2488,1776,3346,0,
2467,2495,3347,0,
2466,2156,3348,0,
2486,2325,3349,0,
2463,1990,3350,0,
2027,2325,3351,0,
2308,2144,3352,0,
2498,2491,3353,0,
2113,2302,3354,0,
2313,2110,3355,0,
2402,2490,3356,0,
2481,2328,3357,0,
2475,1987,3358,0,
2476,2093,3359,0,
2479,2154,3360,0,
2489,0,3361,2,
2286,1919,3362,0,
2461,2496,3363,0,
2301,2165,3364,0,
2477,2155,3365,0,
2140,2289,3366,0,
2410,2050,3367,0,
2030,2323,3368,0,
2493,2460,3369,0,
2459,2462,3370,0,
2484,2147,3371,0,
2102,2342,3372,0,
2376,2458,3373,0,
2286,2282,3374,0,
2483,2386,3375,0,
2108,2283,3376,0,
2474,2095,3377,0,
2281,2326,3378,0,
2027,2288,3379,0,
2469,2455,3380,0,
2470,2468,3381,0,
2310,2453,3382,0,
2471,2482,3383,0,
2478,2323,3384,0,
2472,2473,3385,0,
2308,2131,3386,0,
2454,2128,3387,0,
2021,2327,3388,0,
2464,2014,3389,0,
2457,2465,3390,0,
2512,2147,3391,0,
2511,2063,3392,0,
2510,2128,3393,0,
1805,2338,3394,0,
2517,2103,3395,0,
2156,2344,3396,0,
2505,2078,3397,0,
2509,2115,3398,0,
2029,2281,3399,0,
1987,2313,3400,0,
2285,2012,3401,0,
2523,2064,3402,0,
2518,1998,3403,0,
2501,2502,3404,0,
2507,1991,3405,0,
2071,2344,3406,0,
2291,2057,3407,0,
2503,2118,3408,0,
2519,1771,3409,0,
2056,2342,3410,0,
2514,1924,3411,0,
2513,2125,3412,0,
1955,2328,3413,0,
2533,2532,3414,0,
2416,2071,3415,0,
2540,2033,3416,0,
2526,2174,3417,0,
2547,1990,3418,0,
2430,2059,3419,0,
2537,2536,3420,0,
2527,1776,3421,0,
2535,2021,3422,0,
2548,2543,3423,0,
2270,1952,3424,0,
2290,2284,3425,0,
2500,2329,3426,0,
2270,2078,3427,0,
2530,1988,3428,0,
2043,2289,3429,0,
2326,2157,3430,0,
2544,1990,3431,0,
2538,1980,3432,0,
2049,2416,3433,0,
2330,2291,3434,0,
2308,2004,3435,0,
2047,2344,3436,0,
2534,0,3437,2,
2568,2571,3438,0,
2552,2553,3439,0,
2374,1919,3440,0,
2121,2288,3441,0,
2543,2309,3442,0,
2410,2085,3443,0,
2563,2562,3444,0,
2565,1976,3445,0,
1991,2450,3446,0,
2098,2305,3447,0,
2331,2069,3448,0,
2023,2288,3449,0,
2566,2135,3450,0,
2277,2068,3451,0,
2564,2040,3452,0,
2558,2557,3453,0,
2567,2049,3454,0,
2560,2559,3455,0,
2364,2174,3456,0,
2570,1984,3457,0,
2549,1986,3458,0,
2324,1941,3459,0,
2324,2163,3460,0,
2576,2575,3461,0,
2456,2046,3462,0,
2294,2115,3463,0,
2331,1936,3464,0,
2578,1989,3465,0,
2579,2038,3466,0,
2309,2301,3467,0,
2301,2282,3468,0,
2363,2298,3469,0,
2020,2450,3470,0,
2024,2294,3471,0,
2277,2057,3472,0,
2585,2543,3473,0,
1988,2322,3474,0,
2477,1979,3475,0,
2573,2027,3476,0,
2522,2112,3477,0,
2290,2370,3478,0,
2583,2375,3479,0,
2581,2164,3480,0,
2330,2156,3481,0,
2592,2002,3482,0,
2594,1771,3483,0,
2129,2313,3484,0,
2595,2003,3485,0,
2137,2375,3486,0,
2131,2416,3487,0,
2602,2153,3488,0,
2601,2604,3489,0,
2570,1826,3490,0,
2543,2159,3491,0,
2096,2286,3492,0,
2608,2102,3493,0,
2613,2589,3494,0,
2410,2157,3495,0,
2599,2600,3496,0,
2607,2068,3497,0,
2042,2289,3498,0,
2325,2286,3499,0,
2305,2164,3500,0,
2595,2118,3501,0,
2487,2484,3502,0,
2596,2144,3503,0,
2597,2598,3504,0,
2593,2034,3505,0,
2329,2338,3506,0,
2430,2416,3507,0,
2021,2286,3508,0,
2590,2591,3509,0,
2025,2370,3510,0,
2588,1927,3511,0,
2288,2112,3512,0,
2609,2610,3513,0,
2630,2124,3514,0,
2631,2632,3515,0,
1987,2282,3516,0,
2284,2004,3517,0,
2617,0,3518,2,
2121,2302,3519,0,
2076,2410,3520,0,
2410,2069,3521,0,
2416,2108,3522,0,
2618,1976,3523,0,
2283,2342,3524,0,
2292,2120,3525,0,
2430,2336,3526,0,
2308,2150,3527,0,
2621,2049,3528,0,
2291,2036,3529,0,
2525,2284,3530,0,
2619,2039,3531,0,
2625,2331,3532,0,
2629,2071,3533,0,
2029,2294,3534,0,
2098,2325,3535,0,
2456,1771,3536,0,
2292,2328,3537,0,
2658,2099,3538,0,
2656,2076,3539,0,
2643,2009,3540,0,
2282,2043,3541,0,
2637,2080,3542,0,
2430,2064,3543,0,
2515,2165,3544,0,
2327,2151,3545,0,
2652,1949,3546,0,
2636,2309,3547,0,
2651,2322,3548,0,
2301,2283,3549,0,
2642,2099,3550,0,
2634,1771,3551,0,
2650,2068,3552,0,
2640,2277,3553,0,
2657,2115,3554,0,
2638,2034,3555,0,
2361,2035,3556,0,
1925,2289,3557,0,
2647,2042,3558,0,
2649,2648,3559,0,
2645,2646,3560,0,
2331,2038,3561,0,
2305,1968,3562,0,
2639,1961,3563,0,
1805,2287,3564,0,
2118,2282,3565,0,
2644,2633,3566,0,
2130,2292,3567,0,
2363,2295,3568,0,
2662,2059,3569,0,
2287,2074,3570,0,
2127,2291,3571,0,
1998,2330,3572,0,
2471,2678,3573,0,
2675,2370,3574,0,
2677,2151,3575,0,
2668,2013,3576,0,
2033,2287,3577,0,
2673,2174,3578,0,
2682,2160,3579,0,
2041,2288,3580,0,
2679,2056,3581,0,
2162,2327,3582,0,
2614,2153,3583,0,
1647,2323,3584,0,
2670,2136,3585,0,
2674,2680,3586,0,
1963,2282,3587,0,
2684,1967,3588,0,
2695,2003,3589,0,
2683,2328,3590,0,
2685,2144,3591,0,
2292,2135,3592,0,
2696,2069,3593,0,
2282,2450,3594,0,
2694,2665,3595,0,
2301,2370,3596,0,
2691,2047,3597,0,
2076,2293,3598,0,
2387,2268,3599,0,
2324,2294,3600,0,
2058,2450,3601,0,
2323,2013,3602,0,
2687,2686,3603,0,
2483,2643,3604,0,
1973,2344,3605,0,
2295,2401,3606,0,
2131,2336,3607,0,
1979,2281,3608,0,
1925,2329,3609,0,
2693,2167,3610,0,
2708,1992,3611,0,
2543,2105,3612,0,
2721,1778,3613,0,
2720,1990,3614,0,
2325,2270,3615,0,
2717,2716,3616,0,
2710,1776,3617,0,
2706,1963,3618,0,
2269,1984,3619,0,
2704,2702,3620,0,
2714,1950,3621,0,
2162,2323,3622,0,
2713,2034,3623,0,
2697,2040,3624,0,
2705,2712,3625,0,
2326,2050,3626,0,
2325,1993,3627,0,
2728,2416,3628,0,
2320,2125,3629,0,
2505,2712,3630,0,
2731,2305,3631,0,
1941,2329,3632,0,
2129,2293,3633,0,
1804,2288,3634,0,
2733,2416,3635,0,
2735,1920,3636,0,
2114,2332,3637,0,
2350,2292,3638,0,
2549,2333,3639,0,
2375,2160,3640,0,
2729,2338,3641,0,
2291,2078,3642,0,
2677,2705,3643,0,
2725,2726,3644,0,
2012,2289,3645,0,
2737,2166,3646,0,
2543,2036,3647,0,
2330,2128,3648,0,
2066,2342,3649,0,
2755,2753,3650,0,
2743,2174,3651,0,
2740,2746,3652,0,
2750,2149,3653,0,
2395,2549,3654,0,
2010,2284,3655,0,
2410,2338,3656,0,
1945,2342,3657,0,
2500,2009,3658,0,
2754,2751,3659,0,
2749,2305,3660,0,
2015,2286,3661,0,
2014,2313,3662,0,
2327,2166,3663,0,
2320,1924,3664,0,
2742,1949,3665,0,
2331,2063,3666,0,
2766,2119,3667,0,
2767,2004,3668,0,
2773,2107,3669,0,
2771,2774,3670,0,
2756,2757,3671,0,
2277,2053,3672,0,
2270,2072,3673,0,
2759,1322,3674,1,
2038,2323,3675,0,
2770,2768,3676,0,
2763,2764,3677,0,
2761,2159,3678,0,
2570,1956,3679,0,
2308,2137,3680,0,
2765,1973,3681,0,
2613,2777,3682,0,
2698,2449,3683,0,
2416,2117,3684,0,
2783,1959,3685,0,
2271,2275,3686,0,
2779,1989,3687,0,
2784,2079,3688,0,
2785,1949,3689,0,
2455,1986,3690,0,
2775,2364,3691,0,
2796,2123,3692,0,
2790,2001,3693,0,
2791,2543,3694,0,
2320,1959,3695,0,
2792,2140,3696,0,
2364,1955,3697,0,
2309,1993,3698,0,
2789,2164,3699,0,
1981,2283,3700,0,
2087,2293,3701,0,
2793,2126,3702,0,
1998,2331,3703,0,
2292,1984,3704,0,
2039,2302,3705,0,
2786,2787,3706,0,
1920,2328,3707,0,
2092,2302,3708,0,
2799,1995,3709,0,
2281,2410,3710,0,
1322,2759,3711,0,
2044,2289,3712,0,
2330,2010,3713,0,
2810,2116,3714,0,
2809,2325,3715,0,
2808,2041,3716,0,
2327,2115,3717,0,
2698,1956,3718,0,
2290,2105,3719,0,
2814,2819,3720,0,
2801,2120,3721,0,
2805,2023,3722,0,
2703,1950,3723,0,
2816,2079,3724,0,
2817,2034,3725,0,
2802,2013,3726,0,
2811,1985,3727,0,
2332,2067,3728,0,
2804,2116,3729,0,
2324,2286,3730,0,
2822,1987,3731,0,
2181,2824,3732,0,
2820,2290,3733,0,
2113,2277,3734,0,
2268,1920,3735,0,
2827,2032,3736,0,
2825,2127,3737,0,
2821,2039,3738,0,
2458,2132,3739,0,
2018,2290,3740,0,
2285,2301,3741,0,
2836,2113,3742,0,
2828,2102,3743,0,
2522,2811,3744,0,
2430,2161,3745,0,
2834,2055,3746,0,
2375,2033,3747,0,
2325,1999,3748,0,
2374,2165,3749,0,
2835,2328,3750,0,
2056,2290,3751,0,
2430,1931,3752,0,
2452,2747,3753,0,
2375,2040,3754,0,
2331,2374,3755,0,
2842,2068,3756,0,
2843,1970,3757,0,
2361,2107,3758,0,
2839,2055,3759,0,
2325,2118,3760,0,
2844,2847,3761,0,
2838,2122,3762,0,
2851,2147,3763,0,
1968,2302,3764,0,
2284,2157,3765,0,
2854,2160,3766,0,
1988,2525,3767,0,
2848,2849,3768,0,
2624,2009,3769,0,
2290,1955,3770,0,
2029,2320,3771,0,
2555,2130,3772,0,
2850,2106,3773,0,
2141,2292,3774,0,
2330,2080,3775,0,
2853,2077,3776,0,
2729,2450,3777,0,
2275,2328,3778,0,
2860,2131,3779,0,
2857,2277,3780,0,
2500,2328,3781,0,
2477,1826,3782,0,
2313,2289,3783,0,
2859,2858,3784,0,
2162,2330,3785,0,
2862,2864,3786,0,
2025,2326,3787,0,
2869,2004,3788,0,
2870,2871,3789,0,
2868,2872,3790,0,
2875,2876,3791,0,
2874,2166,3792,0,
2873,1981,3793,0,
2332,2043,3794,0,
2777,1959,3795,0,
1995,2301,3796,0,
2084,2302,3797,0,
2879,1990,3798,0,
2332,2103,3799,0,
2107,2323,3800,0,
2286,1982,3801,0,
2322,1999,3802,0,
2323,2155,3803,0,
2882,2375,3804,0,
2881,2151,3805,0,
2712,2066,3806,0,
2308,1991,3807,0,
2852,2412,3808,0,
2301,2072,3809,0,
2349,2313,3810,0,
2330,2004,3811,0,
1960,2313,3812,0,
2107,2292,3813,0,
2543,2293,3814,0,
2324,2270,3815,0,
2129,2282,3816,0,
2014,2284,3817,0,
2094,2287,3818,0,
2285,2370,3819,0,
2883,2169,3820,0,
2042,2320,3821,0,
2543,2039,3822,0,
2886,2167,3823,0,
2885,2119,3824,0,
2892,2893,3825,0,
2526,2890,3826,0,
2887,2370,3827,0,
2894,2821,3828,0,
2897,1993,3829,0,
2294,2290,3830,0,
2896,2090,3831,0,
2127,2326,3832,0,
2313,2291,3833,0,
2447,2104,3834,0,
2902,2103,3835,0,
2375,2039,3836,0,
2324,2134,3837,0,
2903,1931,3838,0,
1973,2525,3839,0,
2047,2329,3840,0,
2596,2068,3841,0,
2904,2417,3842,0,
2906,2016,3843,0,
2911,2159,3844,0,
2910,2153,3845,0,
2905,1990,3846,0,
2920,2336,3847,0,
2916,2128,3848,0,
2913,2004,3849,0,
2023,2302,3850,0,
2917,2075,3851,0,
2914,2912,3852,0,
2921,2174,3853,0,
2327,2294,3854,0,
2773,2024,3855,0,
2927,1990,3856,0,
2928,2543,3857,0,
2929,2930,3858,0,
2331,2089,3859,0,
2931,1976,3860,0,
2935,2040,3861,0,
2933,2166,3862,0,
2936,2934,3863,0,
2037,2327,3864,0,
2032,2327,3865,0,
2035,2338,3866,0,
2332,2061,3867,0,
2097,2313,3868,0,
2456,1950,3869,0,
2308,2154,3870,0,
2285,2342,3871,0,
2336,1982,3872,0,
2937,1781,3873,0,
2941,2525,3874,0,
2015,2305,3875,0,
2291,2110,3876,0,
2945,2105,3877,0,
2946,2092,3878,0,
2375,2330,3879,0,
2948,2160,3880,0,
2949,2294,3881,0,
2450,2044,3882,0,
2478,2333,3883,0,
2408,2079,3884,0,
2952,2953,3885,0,
2955,2954,3886,0,
2961,2079,3887,0,
2853,2110,3888,0,
2309,2063,3889,0,
2305,2124,3890,0,
2951,2289,3891,0,
2950,2127,3892,0,
2960,2959,3893,0,
2419,2484,3894,0,
2294,2332,3895,0,
2290,2292,3896,0,
1778,2284,3897,0,
2516,2097,3898,0,
2094,2329,3899,0,
2736,2164,3900,0,
2968,2159,3901,0,
2288,2164,3902,0,
2416,2085,3903,0,
2967,2166,3904,0,
2287,2073,3905,0,
2969,2059,3906,0,
2330,2085,3907,0,
2395,1941,3908,0,
2978,2492,3909,0,
2972,1996,3910,0,
2589,1982,3911,0,
2974,2975,3912,0,
2282,1925,3913,0,
2161,2330,3914,0,
2281,2042,3915,0,
2331,2302,3916,0,
2979,2543,3917,0,
2980,1983,3918,0,
2450,2091,3919,0,
2983,2082,3920,0,
2012,2328,3921,0,
2104,2342,3922,0,
2049,2302,3923,0,
2326,2112,3924,0,
2289,2328,3925,0,
2040,2543,3926,0,
2331,2086,3927,0,
2987,2988,3928,0,
2989,2159,3929,0,
2283,2057,3930,0,
1965,2344,3931,0,
2336,2136,3932,0,
2031,2430,3933,0,
2994,2993,3934,0,
2996,1647,3935,0,
2997,2122,3936,0,
2991,2136,3937,0,
2320,2112,3938,0,
2998,2042,3939,0,
2092,2281,3940,0,
2293,2153,3941,0,
2681,2999,3942,0,
3000,2098,3943,0,
3002,2525,3944,0,
3010,3009,3945,0,
3003,2034,3946,0,
3008,3005,3947,0,
3017,3016,3948,0,
2811,2091,3949,0,
2269,2268,3950,0,
3013,3012,3951,0,
3011,3015,3952,0,
3022,2036,3953,0,
2570,2455,3954,0,
2678,2077,3955,0,
2325,2416,3956,0,
2138,2281,3957,0,
3020,3018,3958,0,
2418,2401,3959,0,
2853,2046,3960,0,
3024,3023,3961,0,
2333,2811,3962,0,
2614,2112,3963,0,
3025,2003,3964,0,
3028,2001,3965,0,
3029,2131,3966,0,
3026,2430,3967,0,
2613,2077,3968,0,
2714,2712,3969,0,
1951,2430,3970,0,
2677,2355,3971,0,
3034,3033,3972,0,
2715,1952,3973,0,
1925,2328,3974,0,
2308,2014,3975,0,
2665,1986,3976,0,
1945,2328,3977,0,
3044,3042,3978,0,
3043,2023,3979,0,
2430,2068,3980,0,
3047,2690,3981,0,
3053,2093,3982,0,
2432,2081,3983,0,
1998,2301,3984,0,
3055,2322,3985,0,
2269,2350,3986,0,
2442,2344,3987,0,
3057,2053,3988,0,
3058,2017,3989,0,
3063,2053,3990,0,
3064,3061,3991,0,
3062,1771,3992,0,
3060,2762,3993,0,
2291,2063,3994,0,
2098,2302,3995,0,
2375,2131,3996,0,
2332,1970,3997,0,
1920,2291,3998,0,
1994,2342,3999,0,
3069,2054,4000,0,
2291,2103,4001,0,
3071,3070,4002,0,
2376,2418,4003,0,
3074,3073,4004,0,
3015,3072,4005,0,
3076,1976,4006,0,
1980,2325,4007,0,
1950,2374,4008,0,
2336,1952,4009,0,
2330,2036,4010,0,
2416,2336,4011,0,
2127,2342,4012,0,
2282,2046,4013,0,
2331,2342,4014,0,
2390,2379,4015,0,
3083,2174,4016,0,
2058,2338,4017,0,
2416,2064,4018,0,
3085,2139,4019,0,
2030,2364,4020,0,
3084,1805,4021,0,
2285,2078,4022,0,
3086,2169,4023,0,
3093,2114,4024,0,
3092,1993,4025,0,
2108,2313,4026,0,
2363,2729,4027,0,
3094,2058,4028,0,
3095,2023,4029,0,
2308,2151,4030,0,
3096,2034,4031,0,
3098,0,4032,2,
1849,3099,4033,0,
2387,2458,4034,0,
2098,2342,4035,0,
2525,2105,4036,0,
2313,2073,4037,0,
2139,2309,4038,0,
2305,1955,4039,0,
2372,2783,4040,0,
3105,3104,4041,0,
2327,1994,4042,0,
2309,2061,4043,0,
2285,2364,4044,0,
2643,2478,4045,0,
2458,2333,4046,0,
3106,2156,4047,0,
1781,2290,4048,0,
3107,2525,4049,0,
3102,0,4050,2,
907,3108,4051,1,
4051,31,4052,0,
907,4052,4053,1,
3109,2041,4054,0,
3110,2139,4055,0,
3113,3114,4056,1,
2416,2322,4057,0,
2293,2135,4058,0,
2274,0,4059,2,
2309,2124,4060,0,
2273,1559,4061,0,
2487,2453,4062,0,
2775,2310,4063,0,
2132,2325,4064,0,
2278,2277,4065,0,
2280,1931,4066,0,
3123,1119,4067,1,
3125,1134,4068,1,
3124,0,4069,2,
1119,3123,4070,0,
3126,1145,4071,1,
3127,0,4072,2,
1145,3126,4073,0,
3130,1577,4074,0,
3129,0,4075,2,
1155,3131,4076,0,
3128,2207,4077,0,
3132,0,4078,2,
3138,0,4079,2,
3125,0,4080,2,
1123,3135,4081,0,
3139,1019,4082,0,
3137,0,4083,2,
3131,1158,4084,1,
1250,3136,4085,0,
1147,3142,4086,0,
3134,0,4087,2,
3140,0,4088,2,
3133,1049,4089,0,
3132,1166,4090,1,
3141,1034,4091,0,
3149,0,4092,2,
1889,3144,4093,0,
2224,3148,4094,0,
3143,1040,4095,0,
3145,3147,4096,0,
3146,0,4097,2,
2238,3149,4098,1,
1365,3152,4099,1,
3155,0,4100,2,
3157,3151,4101,0,
3154,0,4102,2,
3161,0,4103,2,
3159,0,4104,2,
3160,0,4105,2,
1482,3163,4106,0,
3166,0,4107,2,
2242,3151,4108,1,
3161,3168,4109,1,
3158,0,4110,2,
3149,1891,4111,1,
3167,0,4112,2,
3165,0,4113,2,
3156,0,4114,2,
3171,1605,4115,0,
3172,0,4116,2,
2242,3151,4117,0,
3169,0,4118,2,
3127,2250,4119,1,
3164,0,4120,2,
3170,0,4121,2,
3174,0,4122,2,
3175,0,4123,2,
3177,0,4124,2,
2254,3176,4125,0,
2258,3178,4126,1,
3178,0,4127,2,
3181,0,4128,2,
3179,0,4129,2,
3180,0,4130,2,
3181,1915,4131,1,
2266,3182,4132,1,
3188,1927,4133,0,
3185,3184,4134,0,
3194,1995,4135,0,
3195,2295,4136,0,
3205,2006,4137,0,
2317,3209,4138,0,
3200,2037,4139,0,
3201,2311,4140,0,
3196,3202,4141,0,
3210,2315,4142,0,
3203,2022,4143,0,
2312,3204,4144,0,
3208,2085,4145,0,
3211,3198,4146,0,
3197,2308,4147,0,
3212,1965,4148,0,
3207,2092,4149,0,
3206,2038,4150,0,
3199,2027,4151,0,
3221,2350,4152,0,
2351,3224,4153,0,
2369,3243,4154,0,
3245,2049,4155,0,
3242,2371,4156,0,
3241,1924,4157,0,
3215,2335,4158,0,
3216,2292,4159,0,
3229,2062,4160,0,
3214,3213,4161,0,
3222,2108,4162,0,
3228,1933,4163,0,
3237,1804,4164,0,
3220,2343,4165,0,
3225,2353,4166,0,
3240,3239,4167,0,
3232,3231,4168,0,
3218,2339,4169,0,
3182,0,4170,2,
3236,2139,4171,0,
3244,2129,4172,0,
3219,2344,4173,0,
3227,2356,4174,0,
3234,2360,4175,0,
3217,2067,4176,0,
3257,2110,4177,0,
3275,1986,4178,0,
3255,2342,4179,0,
3263,2050,4180,0,
3269,2403,4181,0,
3256,2089,4182,0,
3276,2292,4183,0,
3267,3247,4184,0,
3252,2381,4185,0,
3251,2147,4186,0,
3246,2057,4187,0,
3270,2144,4188,0,
2390,3215,4189,0,
3274,2025,4190,0,
2378,3254,4191,0,
3248,2146,4192,0,
3262,2393,4193,0,
3271,2410,4194,0,
3266,3265,4195,0,
3273,2320,4196,0,
3264,2401,4197,0,
3258,2141,4198,0,
2383,3260,4199,0,
3272,2374,4200,0,
3279,2004,4201,0,
3290,2449,4202,0,
3298,2092,4203,0,
2443,3285,4204,0,
3299,2091,4205,0,
3304,2163,4206,0,
2425,3280,4207,0,
3291,2433,4208,0,
2444,3300,4209,0,
3292,2103,4210,0,
3309,1945,4211,0,
3277,2375,4212,0,
3295,3296,4213,0,
3288,2434,4214,0,
3283,2114,4215,0,
3310,2320,4216,0,
1823,3282,4217,1,
3337,2492,4218,0,
3339,2116,4219,0,
3324,1955,4220,0,
3315,2017,4221,0,
3313,2126,4222,0,
3340,3338,4223,0,
3332,2287,4224,0,
3334,1994,4225,0,
3344,2497,4226,0,
3342,2163,4227,0,
3282,0,4228,2,
3343,2499,4229,0,
3335,0,4230,2,
3328,3330,4231,0,
3333,2302,4232,0,
2494,3323,4233,0,
3318,3333,4234,0,
3322,3325,4235,0,
3326,3327,4236,0,
3336,2125,4237,0,
3317,3321,4238,0,
2271,3329,4239,0,
3378,2521,4240,0,
3357,2508,4241,0,
3329,1826,4242,0,
3379,1933,4243,0,
3372,1931,4244,0,
3241,3264,4245,0,
3368,2120,4246,0,
3367,2087,4247,0,
3363,3369,4248,0,
3390,3389,4249,0,
2524,3388,4250,0,
3364,2035,4251,0,
2386,3374,4252,0,
1539,3361,4253,0,
3370,2268,4254,0,
3360,3354,4255,0,
3346,3345,4256,0,
3376,2516,4257,0,
3380,3385,4258,0,
3351,2169,4259,0,
3230,2130,4260,0,
3366,1962,4261,0,
3375,3373,4262,0,
3384,3386,4263,0,
3382,3381,4264,0,
3365,2029,4265,0,
3349,2506,4266,0,
3348,3350,4267,0,
3358,3371,4268,0,
3347,3353,4269,0,
3400,2539,4270,0,
3399,2143,4271,0,
2528,3392,4272,0,
3393,2531,4273,0,
3394,2028,4274,0,
3397,2106,4275,0,
3411,3412,4276,0,
3391,2529,4277,0,
3257,2461,4278,0,
3215,2418,4279,0,
3406,2525,4280,0,
3405,2041,4281,0,
3402,2542,4282,0,
3285,1985,4283,0,
3396,3395,4284,0,
3376,2338,4285,0,
3266,2047,4286,0,
3426,2108,4287,0,
3416,3419,4288,0,
2550,3430,4289,0,
3432,2561,4290,0,
2170,3335,4291,1,
3423,2097,4292,0,
3424,2554,4293,0,
3427,2070,4294,0,
3413,3415,4295,0,
3435,2131,4296,0,
3420,3414,4297,0,
3433,2167,4298,0,
3436,2091,4299,0,
3454,2020,4300,0,
3447,1976,4301,0,
3440,1982,4302,0,
3457,3456,4303,0,
3273,2077,4304,0,
3446,2586,4305,0,
3222,2112,4306,0,
3293,2009,4307,0,
3443,2580,4308,0,
2584,3449,4309,0,
2574,3244,4310,0,
3441,3451,4311,0,
3450,3445,4312,0,
3194,2077,4313,0,
3458,3472,4314,0,
3478,1936,4315,0,
3462,2083,4316,0,
3477,1973,4317,0,
3480,2290,4318,0,
3479,3474,4319,0,
3473,1956,4320,0,
3463,2034,4321,0,
3459,3468,4322,0,
3464,2124,4323,0,
3460,2074,4324,0,
3470,1945,4325,0,
3247,2025,4326,0,
3469,1956,4327,0,
3475,2605,4328,0,
3264,2087,4329,0,
3467,2305,4330,0,
3499,3500,4331,0,
3502,3494,4332,0,
3482,3483,4333,0,
3485,3487,4334,0,
3506,2623,4335,0,
3265,2624,4336,0,
3249,3329,4337,0,
3513,3509,4338,0,
3511,2628,4339,0,
3247,2094,4340,0,
3503,2622,4341,0,
3495,1776,4342,0,
3505,3442,4343,0,
3490,3481,4344,0,
3512,1925,4345,0,
3492,2615,4346,0,
3484,2542,4347,0,
3531,2653,4348,0,
3527,2156,4349,0,
3526,2525,4350,0,
3529,1967,4351,0,
3515,3514,4352,0,
1418,3518,4353,0,
3516,2121,4354,0,
3532,2654,4355,0,
3534,2345,4356,0,
2635,3530,4357,0,
3524,2102,4358,0,
3525,1920,4359,0,
3517,2641,4360,0,
3520,1963,4361,0,
3239,1941,4362,0,
3522,2130,4363,0,
3535,2659,4364,0,
3521,3519,4365,0,
3547,2410,4366,0,
3549,2128,4367,0,
2667,3554,4368,0,
3562,2661,4369,0,
3544,2080,4370,0,
3541,2089,4371,0,
3542,3550,4372,0,
3563,2663,4373,0,
2337,3543,4374,0,
3559,2665,4375,0,
3564,3565,4376,0,
3273,2050,4377,0,
3539,2374,4378,0,
3553,3547,4379,0,
2672,3545,4380,0,
3557,1939,4381,0,
3570,2016,4382,0,
3581,2678,4383,0,
3579,2097,4384,0,
3584,2073,4385,0,
3575,2154,4386,0,
3336,2370,4387,0,
3569,2690,4388,0,
3331,2045,4389,0,
3572,2015,4390,0,
3567,3571,4391,0,
2688,3580,4392,0,
3577,2022,4393,0,
3576,3578,4394,0,
3573,2065,4395,0,
3582,2113,4396,0,
3583,2174,4397,0,
3574,2689,4398,0,
2711,3600,4399,0,
3486,2326,4400,0,
3598,3601,4401,0,
3608,2719,4402,0,
3599,3606,4403,0,
3604,3609,4404,0,
3602,2124,4405,0,
3275,2025,4406,0,
3589,2715,4407,0,
3595,3594,4408,0,
3230,2285,4409,0,
3597,3596,4410,0,
3591,2698,4411,0,
3592,1771,4412,0,
3593,2709,4413,0,
2718,3607,4414,0,
3590,2703,4415,0,
3588,3522,4416,0,
3619,2043,4417,0,
3622,2736,4418,0,
3613,3614,4419,0,
2724,3612,4420,0,
3480,1986,4421,0,
3621,2734,4422,0,
3611,2723,4423,0,
2694,3214,4424,0,
2487,3543,4425,0,
3617,2660,4426,0,
3648,2748,4427,0,
3642,1778,4428,0,
3633,3634,4429,0,
3645,3647,4430,0,
3629,2739,4431,0,
2738,3627,4432,0,
3641,2070,4433,0,
3639,3205,4434,0,
3640,2525,4435,0,
3618,2432,4436,0,
3632,1805,4437,0,
3637,2741,4438,0,
3626,2287,4439,0,
3638,2038,4440,0,
3215,2295,4441,0,
3455,3216,4442,0,
3223,2284,4443,0,
3658,2291,4444,0,
3649,2758,4445,0,
3654,2009,4446,0,
3656,2081,4447,0,
3663,2167,4448,0,
3652,3651,4449,0,
3664,2080,4450,0,
3655,1996,4451,0,
3653,2762,4452,0,
3665,3666,4453,0,
3681,3680,4454,0,
3679,2042,4455,0,
3675,2781,4456,0,
3418,3395,4457,0,
3669,3672,4458,0,
3667,3668,4459,0,
3673,2099,4460,0,
2367,3590,4461,0,
3690,2797,4462,0,
3691,2798,4463,0,
3685,1987,4464,0,
3688,2794,4465,0,
3684,2106,4466,0,
3551,1985,4467,0,
3331,2516,4468,0,
3257,2095,4469,0,
3683,3682,4470,0,
2387,3259,4471,0,
3699,2030,4472,0,
3696,3702,4473,0,
2694,3442,4474,0,
3707,1936,4475,0,
2813,3705,4476,0,
3698,2106,4477,0,
3701,1941,4478,0,
3697,2803,4479,0,
3693,3694,4480,0,
3695,2058,4481,0,
3700,2806,4482,0,
3703,2014,4483,0,
3454,1939,4484,0,
3724,3725,4485,0,
3711,0,4486,2,
3374,2002,4487,0,
2656,3379,4488,0,
3710,3713,4489,0,
3717,2277,4490,0,
3721,3719,4491,0,
3718,1981,4492,0,
3723,2070,4493,0,
3728,2017,4494,0,
3727,1992,4495,0,
3715,3714,4496,0,
3712,2826,4497,0,
3370,3259,4498,0,
3708,2159,4499,0,
3741,2028,4500,0,
3730,2084,4501,0,
3739,1952,4502,0,
3740,2084,4503,0,
3221,2112,4504,0,
3733,3734,4505,0,
3731,2829,4506,0,
3735,2832,4507,0,
3285,3194,4508,0,
3259,2043,4509,0,
3747,2064,4510,0,
2845,3752,4511,0,
3751,2846,4512,0,
3750,3749,4513,0,
2837,3745,4514,0,
3257,2714,4515,0,
3396,3560,4516,0,
3759,2516,4517,0,
3588,2450,4518,0,
3758,2301,4519,0,
3754,2015,4520,0,
3755,2003,4521,0,
3213,3247,4522,0,
3770,3767,4523,0,
3775,2866,4524,0,
3774,2867,4525,0,
3777,2053,4526,0,
3772,2076,4527,0,
3773,2865,4528,0,
3765,1967,4529,0,
3769,2450,4530,0,
3779,1986,4531,0,
3785,2126,4532,0,
3782,2119,4533,0,
3778,2288,4534,0,
3787,2289,4535,0,
3790,3789,4536,0,
3795,2065,4537,0,
3796,3797,4538,0,
3793,2119,4539,0,
3566,2572,4540,0,
2877,3794,4541,0,
3281,1945,4542,0,
3802,1976,4543,0,
3800,3801,4544,0,
3799,2880,4545,0,
3805,3804,4546,0,
3803,1968,4547,0,
3423,2442,4548,0,
3746,2112,4549,0,
3807,2056,4550,0,
3374,2326,4551,0,
3444,3559,4552,0,
3558,3212,4553,0,
3806,1804,4554,0,
3813,2111,4555,0,
3812,2086,4556,0,
3808,2434,4557,0,
3817,2888,4558,0,
2891,3818,4559,0,
3820,3216,4560,0,
3816,2093,4561,0,
3811,2884,4562,0,
3815,3814,4563,0,
3810,3809,4564,0,
3530,3259,4565,0,
3828,2660,4566,0,
3821,3822,4567,0,
3376,3829,4568,0,
3831,2901,4569,0,
3833,2288,4570,0,
3832,2900,4571,0,
3830,2277,4572,0,
3835,2907,4573,0,
3834,2908,4574,0,
3836,2015,4575,0,
3840,1992,4576,0,
2861,3839,4577,0,
3842,3846,4578,0,
3844,3843,4579,0,
3845,2915,4580,0,
3331,3486,4581,0,
3267,1933,4582,0,
3849,3850,4583,0,
3852,3851,4584,0,
3701,3687,4585,0,
3828,3701,4586,0,
3841,2401,4587,0,
3829,2773,4588,0,
2494,3757,4589,0,
3855,2129,4590,0,
3854,1988,4591,0,
3791,1985,4592,0,
3864,2633,4593,0,
3861,2938,4594,0,
3863,3862,4595,0,
3859,2105,4596,0,
3872,2322,4597,0,
3870,2943,4598,0,
2942,3868,4599,0,
3869,2944,4600,0,
3364,2484,4601,0,
3871,2947,4602,0,
3865,3867,4603,0,
3866,2940,4604,0,
3505,3212,4605,0,
3875,1931,4606,0,
3439,2095,4607,0,
3882,2958,4608,0,
3879,2147,4609,0,
2449,3387,4610,0,
3884,1990,4611,0,
3888,2963,4612,0,
3887,2964,4613,0,
3898,3897,4614,0,
3442,2962,4615,0,
3894,1956,4616,0,
3892,3889,4617,0,
3327,3699,4618,0,
3890,2965,4619,0,
3885,3886,4620,0,
3896,3895,4621,0,
3903,3902,4622,0,
3906,2971,4623,0,
3908,2977,4624,0,
3899,2970,4625,0,
2976,3907,4626,0,
2372,3610,4627,0,
3473,2616,4628,0,
3257,2732,4629,0,
3221,2703,4630,0,
3911,2099,4631,0,
3915,1992,4632,0,
3914,2117,4633,0,
3913,2313,4634,0,
3916,2981,4635,0,
2705,3421,4636,0,
2986,3923,4637,0,
3921,3922,4638,0,
3918,2984,4639,0,
3920,2985,4640,0,
3927,3926,4641,0,
3925,1936,4642,0,
3636,3374,4643,0,
3932,2992,4644,0,
2515,3937,4645,0,
3936,3933,4646,0,
3938,3001,4647,0,
3939,3000,4648,0,
3820,3841,4649,0,
3006,3940,4650,0,
3942,3943,4651,0,
3007,3941,4652,0,
3951,3952,4653,0,
3948,2434,4654,0,
3949,3019,4655,0,
3957,3956,4656,0,
2269,3323,4657,0,
3962,3554,4658,0,
3959,3792,4659,0,
3960,2062,4660,0,
3877,3579,4661,0,
3964,3032,4662,0,
3963,3030,4663,0,
3371,2077,4664,0,
3968,3035,4665,0,
3970,3425,4666,0,
3843,2335,4667,0,
3512,2029,4668,0,
3039,3974,4669,0,
3975,3040,4670,0,
3976,3041,4671,0,
3977,3045,4672,0,
3937,2163,4673,0,
2732,3530,4674,0,
3978,3979,4675,0,
3534,3253,4676,0,
3050,3980,4677,0,
3982,3054,4678,0,
3056,3984,4679,0,
3396,2412,4680,0,
3988,3059,4681,0,
3989,3980,4682,0,
3991,3992,4683,0,
3993,2962,4684,0,
3994,2059,4685,0,
3995,2049,4686,0,
3997,3066,4687,0,
3999,3068,4688,0,
3326,2338,4689,0,
4000,4001,4690,0,
3590,2852,4691,0,
4004,4005,4692,0,
4006,3077,4693,0,
4007,3079,4694,0,
4008,2041,4695,0,
3080,4009,4696,0,
3082,4011,4697,0,
2471,3369,4698,0,
4013,4012,4699,0,
4014,1978,4700,0,
3089,4018,4701,0,
4021,4020,4702,0,
4017,3087,4703,0,
4019,3091,4704,0,
4022,1994,4705,0,
4025,4024,4706,0,
4029,3097,4707,0,
4028,4030,4708,0,
4033,2189,4709,0,
4032,2188,4710,0,
3394,1965,4711,0,
3396,2677,4712,0,
3671,1956,4713,0,
3103,4036,4714,0,
4046,4045,4715,0,
3288,2483,4716,0,
4044,1778,4717,0,
4040,2410,4718,0,
4039,2137,4719,0,
4043,4042,4720,0,
4047,4049,4721,0,
3993,2705,4722,0,
4048,3111,4723,0,
3112,3948,4724,0,
4054,4055,4725,0,
4053,0,4726,2,
3409,2108,4727,0,
4057,3115,4728,0,
3116,4058,4729,0,
3117,4059,4730,0,
822,4056,4731,1,
4731,31,4732,0,
822,4732,4733,1,
2272,3192,4734,1,
3118,4060,4735,0,
3193,3192,4736,0,
3186,3187,4737,0,
3191,3190,4738,0,
2267,3183,4739,0,
2276,3189,4740,0,
4067,1138,4741,1,
1138,4067,4742,0,
4068,1249,4743,1,
4070,0,4744,2,
1154,4071,4745,0,
4076,0,4746,2,
4068,0,4747,2,
4074,0,4748,2,
4072,1252,4749,0,
1247,4072,4750,0,
1165,4078,4751,0,
4073,0,4752,2,
4086,0,4753,2,
4090,1268,4754,1,
4089,0,4755,2,
4084,1366,4756,1,
4077,0,4757,2,
4085,0,4758,2,
4082,0,4759,2,
1134,4080,4760,0,
4081,0,4761,2,
4091,1025,4762,0,
2225,4087,4763,0,
2227,4083,4764,0,
4071,1154,4765,1,
4095,0,4766,2,
1891,4092,4767,0,
3156,4094,4768,1,
4090,0,4769,2,
4096,4087,4770,0,
4093,0,4771,2,
2243,4100,4772,0,
4101,0,4773,2,
4099,3164,4774,1,
2245,4107,4775,0,
4108,2221,4776,1,
3168,4103,4777,0,
4109,0,4778,2,
2244,4105,4779,0,
1366,4084,4780,0,
1372,4104,4781,0,
4094,0,4782,2,
4108,3157,4783,0,
4106,0,4784,2,
2255,4118,4785,0,
4099,4120,4786,0,
4115,0,4787,2,
4117,0,4788,2,
2259,4124,4789,0,
4125,0,4790,2,
4126,0,4791,2,
2258,4127,4792,0,
1915,4128,4793,0,
2263,4129,4794,0,
4131,0,4795,2,
4132,0,4796,2,
4685,3065,4797,0,
4737,4065,4798,0,
4133,2326,4799,0,
4388,3603,4800,0,
4739,4066,4801,0,
4738,0,4802,2,
4136,2043,4803,0,
2307,4135,4804,0,
3233,4147,4805,0,
4149,3235,4806,0,
4150,3238,4807,0,
2367,4138,4808,0,
4140,4141,4809,0,
2345,4139,4810,0,
4143,4144,4811,0,
3226,4142,4812,0,
3223,4145,4813,0,
4151,1805,4814,0,
4137,2341,4815,0,
2358,4148,4816,0,
2357,4145,4817,0,
4161,2042,4818,0,
2266,4170,4819,0,
4160,2281,4820,0,
4157,2062,4821,0,
3253,4176,4822,0,
4159,2336,4823,0,
4155,2384,4824,0,
4154,4169,4825,0,
4167,2414,4826,0,
4152,3250,4827,0,
4164,2386,4828,0,
3263,4153,4829,0,
4168,3259,4830,0,
4162,4163,4831,0,
4173,3268,4832,0,
4158,3261,4833,0,
4193,3297,4834,0,
4191,3287,4835,0,
4184,4187,4836,0,
4185,2345,4837,0,
3284,4189,4838,0,
4194,1985,4839,0,
4196,3301,4840,0,
4197,3303,4841,0,
4183,2427,4842,0,
4177,2294,4843,0,
4186,3281,4844,0,
4199,3305,4845,0,
4200,3308,4846,0,
4198,2446,4847,0,
4179,2424,4848,0,
4190,3286,4849,0,
4180,2024,4850,0,
3306,4192,4851,0,
4216,2120,4852,0,
3320,4212,4853,0,
4204,2370,4854,0,
4188,3331,4855,0,
4214,2456,4856,0,
4217,0,4857,2,
4209,0,4858,2,
4210,3341,4859,0,
3311,4201,4860,0,
4222,1933,4861,0,
4220,2287,4862,0,
4231,2295,4863,0,
4226,2025,4864,0,
2170,4230,4865,0,
1823,4228,4866,0,
4217,4209,4867,1,
2304,4218,4868,0,
4234,3377,4869,0,
4223,2515,4870,0,
4237,2410,4871,0,
3356,4219,4872,0,
4227,3362,4873,0,
4236,2522,4874,0,
3359,4221,4875,0,
3253,4238,4876,0,
3383,4232,4877,0,
4224,4225,4878,0,
4257,3401,4879,0,
2390,4247,4880,0,
4253,0,4881,2,
4243,1950,4882,0,
4244,2125,4883,0,
4218,3408,4884,0,
4260,3407,4885,0,
4248,4246,4886,0,
4262,4258,4887,0,
4245,2281,4888,0,
4269,4267,4889,0,
4250,2118,4890,0,
4261,2546,4891,0,
4265,2545,4892,0,
4242,2018,4893,0,
4275,3408,4894,0,
4270,3417,4895,0,
4284,3429,4896,0,
4206,2285,4897,0,
4283,2364,4898,0,
4281,3431,4899,0,
4274,2525,4900,0,
3418,4280,4901,0,
4272,4273,4902,0,
4285,3434,4903,0,
4286,2569,4904,0,
2271,4278,4905,0,
4279,3421,4906,0,
3442,4153,4907,0,
4206,2268,4908,0,
4293,4289,4909,0,
4294,2577,4910,0,
4296,2119,4911,0,
4291,0,4912,2,
4292,1804,4913,0,
4288,3455,4914,0,
4299,3448,4915,0,
4302,2612,4916,0,
2376,4187,4917,0,
2367,4303,4918,0,
3471,4304,4919,0,
4306,1979,4920,0,
4313,2606,4921,0,
3359,4301,4922,0,
4300,2587,4923,0,
4308,3461,4924,0,
4314,2614,4925,0,
4318,2626,4926,0,
4322,4321,4927,0,
3501,4221,4928,0,
4323,3507,4929,0,
4327,3510,4930,0,
4325,2627,4931,0,
4329,2014,4932,0,
4324,3508,4933,0,
3486,4330,4934,0,
4326,2070,4935,0,
4317,3493,4936,0,
4316,3491,4937,0,
4345,3537,4938,0,
4340,1939,4939,0,
4336,2112,4940,0,
4337,2323,4941,0,
4186,3536,4942,0,
4341,1826,4943,0,
4347,4346,4944,0,
4343,2655,4945,0,
4365,3560,4946,0,
4290,4348,4947,0,
4351,3558,4948,0,
4357,3540,4949,0,
4354,2666,4950,0,
4349,3552,4951,0,
4360,3555,4952,0,
4356,4363,4953,0,
4353,0,4954,2,
4146,3551,4955,0,
4186,4295,4956,0,
4359,4358,4957,0,
3548,4355,4958,0,
4361,2671,4959,0,
4362,2676,4960,0,
4376,4143,4961,0,
4164,2656,4962,0,
4381,4367,4963,0,
4380,4369,4964,0,
4370,2614,4965,0,
4378,2557,4966,0,
4375,4366,4967,0,
4372,4368,4968,0,
4374,3239,4969,0,
4377,2692,4970,0,
4383,2335,4971,0,
4397,2050,4972,0,
4386,2555,4973,0,
4393,3610,4974,0,
4389,2282,4975,0,
3581,4396,4976,0,
4385,2700,4977,0,
4382,2707,4978,0,
4391,4390,4979,0,
4387,2287,4980,0,
4395,3587,4981,0,
4409,2364,4982,0,
3625,4416,4983,0,
4406,2030,4984,0,
4412,2141,4985,0,
4407,3620,4986,0,
4401,4399,4987,0,
4400,3618,4988,0,
4402,3616,4989,0,
4403,4404,4990,0,
4410,2505,4991,0,
4405,2112,4992,0,
4426,3371,4993,0,
3630,4421,4994,0,
4425,3635,4995,0,
4301,2050,4996,0,
4151,1950,4997,0,
4423,4420,4998,0,
4422,3636,4999,0,
4418,3646,5000,0,
3650,4427,5001,0,
4436,2108,5002,0,
4437,3661,5003,0,
4431,4432,5004,0,
4439,3662,5005,0,
4428,2760,5006,0,
4440,2270,5007,0,
3660,4435,5008,0,
4434,4433,5009,0,
4444,2780,5010,0,
4443,2033,5011,0,
4450,2782,5012,0,
4446,3678,5013,0,
4447,4451,5014,0,
4386,2572,5015,0,
4453,3670,5016,0,
4456,3522,5017,0,
4457,1959,5018,0,
4422,3512,5019,0,
4187,3687,5020,0,
4458,2747,5021,0,
4455,2788,5022,0,
4460,2795,5023,0,
4459,4454,5024,0,
4462,2112,5025,0,
4469,2818,5026,0,
3706,4466,5027,0,
4463,3692,5028,0,
4309,2408,5029,0,
4467,2815,5030,0,
4468,3704,5031,0,
4472,2166,5032,0,
4479,3729,5033,0,
4478,2058,5034,0,
3716,4477,5035,0,
4481,3726,5036,0,
4474,1979,5037,0,
4476,3720,5038,0,
4488,2443,5039,0,
3737,4499,5040,0,
4489,3732,5041,0,
4462,2496,5042,0,
4497,3738,5043,0,
4492,4490,5044,0,
4493,3736,5045,0,
4487,2126,5046,0,
4495,2833,5047,0,
4494,2831,5048,0,
4484,2038,5049,0,
4504,1994,5050,0,
4502,3742,5051,0,
4335,2574,5052,0,
4500,4247,5053,0,
4174,2401,5054,0,
2635,4263,5055,0,
4516,2855,5056,0,
4513,4511,5057,0,
4509,3762,5058,0,
4510,2852,5059,0,
4518,2856,5060,0,
4522,3771,5061,0,
4519,3764,5062,0,
3768,4520,5063,0,
4521,2863,5064,0,
4525,4524,5065,0,
4527,3783,5066,0,
4530,4529,5067,0,
4533,4532,5068,0,
4531,2012,5069,0,
4534,2379,5070,0,
4280,2589,5071,0,
4430,3792,5072,0,
4223,4535,5073,0,
4536,2478,5074,0,
4540,2329,5075,0,
4542,1995,5076,0,
4538,3798,5077,0,
4544,4543,5078,0,
4547,2304,5079,0,
4238,2714,5080,0,
4548,2020,5081,0,
4553,3819,5082,0,
4549,2125,5083,0,
4376,2574,5084,0,
4554,3779,5085,0,
4551,2450,5086,0,
4559,3826,5087,0,
4564,4562,5088,0,
4330,4563,5089,0,
4561,2898,5090,0,
4555,3823,5091,0,
4560,2374,5092,0,
2852,4160,5093,0,
4556,2899,5094,0,
4295,4303,5095,0,
2698,4163,5096,0,
4226,4144,5097,0,
4571,3838,5098,0,
4534,2035,5099,0,
4568,2370,5100,0,
4535,1959,5101,0,
3841,4573,5102,0,
4576,4575,5103,0,
2355,4574,5104,0,
4580,4458,5105,0,
4579,2009,5106,0,
3370,4501,5107,0,
4581,2923,5108,0,
4582,2925,5109,0,
4583,3543,5110,0,
4585,2896,5111,0,
4275,2141,5112,0,
4550,3195,5113,0,
4586,1959,5114,0,
3486,4583,5115,0,
2345,4456,5116,0,
4192,2095,5117,0,
4589,2077,5118,0,
4592,2104,5119,0,
3873,4596,5120,0,
4601,3876,5121,0,
4597,2447,5122,0,
4604,4603,5123,0,
4507,3877,5124,0,
4176,2412,5125,0,
4154,2574,5126,0,
4600,4598,5127,0,
4599,3874,5128,0,
3881,4606,5129,0,
4607,2957,5130,0,
4605,3394,5131,0,
4166,3215,5132,0,
4220,2442,5133,0,
4610,2150,5134,0,
4608,3893,5135,0,
3844,4611,5136,0,
3891,4609,5137,0,
4614,3901,5138,0,
4616,3905,5139,0,
4617,4619,5140,0,
4618,1959,5141,0,
4615,2419,5142,0,
4612,3900,5143,0,
4569,4625,5144,0,
4627,2041,5145,0,
4624,3909,5146,0,
4626,3912,5147,0,
2482,4631,5148,0,
4630,2386,5149,0,
4628,2287,5150,0,
3742,4503,5151,0,
3244,4440,5152,0,
4634,4580,5153,0,
4632,4633,5154,0,
4232,4244,5155,0,
4638,4637,5156,0,
4584,3421,5157,0,
4643,2995,5158,0,
4642,3930,5159,0,
4412,2012,5160,0,
4512,2665,5161,0,
3934,4644,5162,0,
4645,3004,5163,0,
4647,3944,5164,0,
4417,3222,5165,0,
2453,4650,5166,0,
4652,3947,5167,0,
2635,4597,5168,0,
4649,3014,5169,0,
4648,3945,5170,0,
4348,2477,5171,0,
4654,3955,5172,0,
4655,3958,5173,0,
4651,4573,5174,0,
4658,3031,5175,0,
4660,2917,5176,0,
4661,3027,5177,0,
4657,2185,5178,0,
4502,2012,5179,0,
2496,4133,5180,0,
4664,3036,5181,0,
4665,3972,5182,0,
4454,2962,5183,0,
4669,4670,5184,0,
4668,2308,5185,0,
4397,2068,5186,0,
4341,4631,5187,0,
4673,3049,5188,0,
4672,3290,5189,0,
4676,3306,5190,0,
4679,3985,5191,0,
4681,4682,5192,0,
4684,2058,5193,0,
4686,3996,5194,0,
4396,2095,5195,0,
4372,3194,5196,0,
4690,4002,5197,0,
4445,3364,5198,0,
4003,4691,5199,0,
2643,4510,5200,0,
4547,3759,5201,0,
4695,3081,5202,0,
4250,2408,5203,0,
4500,2482,5204,0,
4344,3759,5205,0,
2656,4509,5206,0,
4700,3088,5207,0,
4699,4016,5208,0,
4015,4698,5209,0,
4703,4023,5210,0,
4702,4704,5211,0,
3501,4309,5212,0,
2376,4563,5213,0,
4708,4707,5214,0,
4709,0,5215,2,
4710,0,5216,2,
4212,3222,5217,0,
3102,4709,5218,1,
4672,2703,5219,0,
4622,2551,5220,0,
4711,4035,5221,0,
4713,1973,5222,0,
2783,4314,5223,0,
4634,2507,5224,0,
4716,3793,5225,0,
4718,4719,5226,0,
4720,3792,5227,0,
4709,4050,5228,0,
4723,4724,5229,0,
4211,2747,5230,0,
4729,4728,5231,0,
4727,3119,5232,0,
4730,0,5233,2,
823,4734,5234,1,
5234,31,5235,0,
823,5235,5236,1,
4736,0,5237,2,
4741,4069,5238,0,
4742,0,5239,2,
4743,1874,5240,1,
4745,0,5241,2,
4744,4075,5242,0,
4748,4088,5243,0,
4751,0,5244,2,
1459,4749,5245,0,
4750,0,5246,2,
4743,0,5247,2,
1249,4747,5248,0,
4079,4746,5249,0,
4763,0,5250,2,
3150,4755,5251,0,
4097,4761,5252,0,
4756,4093,5253,1,
4754,0,5254,2,
4765,4764,5255,1,
4760,0,5256,2,
3153,4759,5257,0,
4762,0,5258,2,
4741,3124,5259,1,
4768,1899,5260,1,
4770,0,5261,2,
4764,0,5262,2,
4767,0,5263,2,
3162,4766,5264,0,
1268,4769,5265,0,
4772,0,5266,2,
1894,4773,5267,0,
4774,4106,5268,1,
4756,4771,5269,0,
4774,0,5270,2,
4775,0,5271,2,
4114,4782,5272,0,
4775,3172,5273,1,
4780,0,5274,2,
4763,4111,5275,0,
4781,4779,5276,1,
4768,2251,5277,0,
4776,0,5278,2,
4779,0,5279,2,
4777,0,5280,2,
4781,0,5281,2,
4783,0,5282,2,
4786,0,5283,2,
3175,4785,5284,1,
4122,4787,5285,0,
4785,0,5286,2,
4126,4789,5287,1,
4789,0,5288,2,
4792,0,5289,2,
4793,0,5290,2,
4794,0,5291,2,
4131,4794,5292,1,
5175,4662,5293,0,
5228,4053,5294,1,
4965,5128,5295,0,
4799,1984,5296,0,
5116,5117,5297,0,
5236,4733,5298,0,
4146,4804,5299,0,
4803,3230,5300,0,
4808,2379,5301,0,
4809,2376,5302,0,
4815,4165,5303,0,
4805,3249,5304,0,
4814,2404,5305,0,
4174,4817,5306,0,
4816,4175,5307,0,
4811,4812,5308,0,
4813,4172,5309,0,
4807,4806,5310,0,
4171,4810,5311,0,
4831,2445,5312,0,
4825,4164,5313,0,
4820,2070,5314,0,
4178,4821,5315,0,
4827,3289,5316,0,
4828,4188,5317,0,
4819,0,5318,2,
4830,2329,5319,0,
4829,3293,5320,0,
3278,4823,5321,0,
4818,2421,5322,0,
4833,3307,5323,0,
4839,3319,5324,0,
4837,2108,5325,0,
4849,4208,5326,0,
4850,4215,5327,0,
4851,2494,5328,0,
4846,3316,5329,0,
4847,4211,5330,0,
4845,4206,5331,0,
4203,4843,5332,0,
4840,2376,5333,0,
4844,4838,5334,0,
4841,4205,5335,0,
4840,2310,5336,0,
4853,4233,5337,0,
4855,1985,5338,0,
4857,4858,5339,0,
4854,3355,5340,0,
4878,4266,5341,0,
4241,4872,5342,0,
4254,4864,5343,0,
4865,0,5344,2,
4868,2541,5345,0,
4877,4264,5346,0,
4861,2006,5347,0,
4874,3410,5348,0,
4871,3403,5349,0,
4263,4876,5350,0,
4268,4875,5351,0,
4252,4862,5352,0,
4866,0,5353,2,
4870,4251,5354,0,
4888,2551,5355,0,
4879,4271,5356,0,
4880,2556,5357,0,
4848,2277,5358,0,
4884,2555,5359,0,
4885,2408,5360,0,
4883,3425,5361,0,
4892,4891,5362,0,
4890,2001,5363,0,
4886,4277,5364,0,
4881,1831,5365,1,
4898,2582,5366,0,
4894,1933,5367,0,
4905,4287,5368,0,
4903,3438,5369,0,
4901,4906,5370,0,
4904,4298,5371,0,
4897,2115,5372,0,
4896,3452,5373,0,
4915,4311,5374,0,
4911,2603,5375,0,
1831,4881,5376,0,
4907,2507,5377,0,
4913,3476,5378,0,
4924,3264,5379,0,
2616,4923,5380,0,
4920,3498,5381,0,
3496,4919,5382,0,
4921,3497,5383,0,
4918,3504,5384,0,
4922,4320,5385,0,
4917,3267,5386,0,
4893,4916,5387,0,
4344,4932,5388,0,
4931,4926,5389,0,
4934,3523,5390,0,
4930,4339,5391,0,
4928,4222,5392,0,
4935,3533,5393,0,
4937,2355,5394,0,
4925,2165,5395,0,
4945,4364,5396,0,
4942,4944,5397,0,
4938,3538,5398,0,
4941,2681,5399,0,
4943,3561,5400,0,
4939,4350,5401,0,
4946,2349,5402,0,
2337,4958,5403,0,
4949,4371,5404,0,
4957,2447,5405,0,
4955,4379,5406,0,
4954,1544,5407,1,
4948,4932,5408,0,
4960,3586,5409,0,
4970,4392,5410,0,
3534,4966,5411,0,
4969,3605,5412,0,
4962,4384,5413,0,
4954,1544,5414,0,
4973,3615,5415,0,
4916,4138,5416,0,
4976,4139,5417,0,
4832,4977,5418,0,
4975,2730,5419,0,
4980,3623,5420,0,
4974,2443,5421,0,
4992,2155,5422,0,
4991,4417,5423,0,
4988,4987,5424,0,
4985,2745,5425,0,
3643,4982,5426,0,
4990,4989,5427,0,
4984,3631,5428,0,
4996,2769,5429,0,
4995,4993,5430,0,
4441,4999,5431,0,
4997,2772,5432,0,
5001,4445,5433,0,
5002,2778,5434,0,
5005,3676,5435,0,
5003,3671,5436,0,
5009,5008,5437,0,
4461,5015,5438,0,
5014,2379,5439,0,
5011,5010,5440,0,
4923,2551,5441,0,
5014,2487,5442,0,
5020,2807,5443,0,
5017,2800,5444,0,
5019,4365,5445,0,
5023,3548,5446,0,
5021,5022,5447,0,
5030,4483,5448,0,
5026,4475,5449,0,
5025,2823,5450,0,
5037,2830,5451,0,
5035,5032,5452,0,
4806,4491,5453,0,
5045,4899,5454,0,
5039,2840,5455,0,
5046,3743,5456,0,
5047,5048,5457,0,
5044,3530,5458,0,
4503,4847,5459,0,
5049,3748,5460,0,
5042,3744,5461,0,
4803,4138,5462,0,
5053,3760,5463,0,
5054,4514,5464,0,
5052,2483,5465,0,
5051,1979,5466,0,
3757,5050,5467,0,
5032,2496,5468,0,
5056,3766,5469,0,
5058,3271,5470,0,
5061,4523,5471,0,
5064,3786,5472,0,
5060,3780,5473,0,
5062,3784,5474,0,
4957,2298,5475,0,
5068,4309,5476,0,
5069,2878,5477,0,
5071,4539,5478,0,
5074,5073,5479,0,
4933,4168,5480,0,
5080,3523,5481,0,
5079,4550,5482,0,
5081,2889,5483,0,
5083,3824,5484,0,
4845,2408,5485,0,
4982,2287,5486,0,
4823,5086,5487,0,
5082,3825,5488,0,
5041,2054,5489,0,
5085,2895,5490,0,
5093,2777,5491,0,
5092,3501,5492,0,
5088,2732,5493,0,
4569,5035,5494,0,
5096,3617,5495,0,
5099,2919,5496,0,
5101,2918,5497,0,
2572,5104,5498,0,
3635,4804,5499,0,
5106,3853,5500,0,
2698,5068,5501,0,
5113,5112,5502,0,
5107,4169,5503,0,
5110,3272,5504,0,
5109,3856,5505,0,
5111,3857,5506,0,
5108,3858,5507,0,
5114,2939,5508,0,
5119,3878,5509,0,
5121,3880,5510,0,
5050,5122,5511,0,
5124,2956,5512,0,
5129,2024,5513,0,
5134,3904,5514,0,
5132,5133,5515,0,
5136,2973,5516,0,
3501,5123,5517,0,
5139,4623,5518,0,
5141,3910,5519,0,
5145,3917,5520,0,
4636,5152,5521,0,
5149,5148,5522,0,
5151,2328,5523,0,
5155,2329,5524,0,
4805,2453,5525,0,
5157,3929,5526,0,
4843,4611,5527,0,
4926,4536,5528,0,
5086,2096,5529,0,
5163,3946,5530,0,
5166,5165,5531,0,
5172,3961,5532,0,
5171,3929,5533,0,
5178,3967,5534,0,
5177,3965,5535,0,
5179,2130,5536,0,
5180,3762,5537,0,
5181,3973,5538,0,
5185,3046,5539,0,
3048,5186,5540,0,
5190,3983,5541,0,
5193,3998,5542,0,
4797,2507,5543,0,
5195,3067,5544,0,
5194,4687,5545,0,
5196,4514,5546,0,
5198,3075,5547,0,
5200,2010,5548,0,
5066,4694,5549,0,
5204,4010,5550,0,
5202,4696,5551,0,
5205,2320,5552,0,
4977,5023,5553,0,
5033,2732,5554,0,
5207,4701,5555,0,
5087,2408,5556,0,
4885,4330,5557,0,
5213,2449,5558,0,
4924,1984,5559,0,
5216,5215,5560,0,
5219,5217,5561,0,
5220,4712,5562,0,
4185,4931,5563,0,
5222,4038,5564,0,
2304,4821,5565,0,
5223,2163,5566,0,
5092,4602,5567,0,
4620,4979,5568,0,
4722,5224,5569,0,
4656,5164,5570,0,
4971,4419,5571,0,
5226,5225,5572,0,
4726,5228,5573,0,
3120,5218,5574,0,
5232,4735,5575,0,
4062,5230,5576,0,
5168,4554,5577,0,
5238,0,5578,2,
5240,4077,5579,1,
5241,4752,5580,0,
5242,0,5581,2,
5248,0,5582,2,
5245,0,5583,2,
5247,2234,5584,0,
4758,5246,5585,0,
5240,4757,5586,0,
4753,5244,5587,0,
5249,0,5588,2,
5243,2233,5589,0,
5257,0,5590,2,
5255,5252,5591,1,
4102,5258,5592,0,
4098,5250,5593,0,
5255,0,5594,2,
5252,0,5595,2,
5254,2201,5596,0,
5251,0,5597,2,
5259,0,5598,2,
2232,5254,5599,0,
5253,0,5600,2,
2249,5263,5601,0,
4754,5264,5602,1,
5259,5251,5603,1,
5260,0,5604,2,
5265,0,5605,2,
4765,5262,5606,0,
5267,0,5607,2,
4112,5268,5608,0,
5269,0,5609,2,
5270,4784,5610,0,
3173,5273,5611,1,
4121,5280,5612,0,
5275,0,5613,2,
5277,0,5614,2,
5272,0,5615,2,
3173,5273,5616,0,
5281,5279,5617,0,
5271,4116,5618,0,
4119,5276,5619,0,
5268,0,5620,2,
4788,5282,5621,0,
5284,5285,5622,1,
5285,0,5623,2,
4119,5276,5624,1,
4123,5286,5625,0,
4791,5288,5626,0,
4130,5289,5627,0,
4795,5291,5628,0,
2265,5290,5629,0,
4800,5297,5630,0,
5296,3121,5631,0,
5573,0,5632,2,
5560,0,5633,2,
5299,4156,5634,0,
5300,4166,5635,0,
4826,5307,5636,0,
4181,5302,5637,0,
5303,4832,5638,0,
4182,5304,5639,0,
5311,2441,5640,0,
5309,3294,5641,0,
4822,5305,5642,0,
5301,4195,5643,0,
5306,5308,5644,0,
3302,5310,5645,0,
5316,4835,5646,0,
4848,5322,5647,0,
5321,4834,5648,0,
5314,3314,5649,0,
3329,5323,5650,0,
5319,2480,5651,0,
4842,5312,5652,0,
5334,5303,5653,0,
2520,5336,5654,0,
5325,2504,5655,0,
5332,3387,5656,0,
5326,4156,5657,0,
2500,5330,5658,0,
4856,5328,5659,0,
5335,4235,5660,0,
5338,3398,5661,0,
5337,4240,5662,0,
5340,4255,5663,0,
5339,0,5664,2,
5347,3428,5665,0,
5350,5346,5666,0,
4887,5345,5667,0,
5342,4882,5668,0,
4889,5351,5669,0,
5348,2269,5670,0,
5343,3422,5671,0,
3437,5344,5672,0,
5341,2549,5673,0,
5358,2160,5674,0,
5364,4902,5675,0,
5362,3221,5676,0,
5355,2572,5677,0,
5357,3444,5678,0,
5361,3453,5679,0,
4290,5363,5680,0,
5356,4895,5681,0,
5370,5369,5682,0,
5368,4312,5683,0,
4305,5373,5684,0,
5367,3466,5685,0,
4910,5371,5686,0,
5372,2119,5687,0,
4909,5366,5688,0,
5376,0,5689,2,
5375,3489,5690,0,
4335,5382,5691,0,
5385,4342,5692,0,
5381,4331,5693,0,
4933,5383,5694,0,
5379,5380,5695,0,
5387,4296,5696,0,
5391,2461,5697,0,
5388,2660,5698,0,
5390,3546,5699,0,
5392,3556,5700,0,
4335,5401,5701,0,
5399,4950,5702,0,
5397,5396,5703,0,
5398,4947,5704,0,
5400,3585,5705,0,
4968,5406,5706,0,
5363,2410,5707,0,
5404,4394,5708,0,
5403,2701,5709,0,
5402,2699,5710,0,
5413,3624,5711,0,
5411,4411,5712,0,
5410,2732,5713,0,
5414,0,5714,2,
5412,4414,5715,0,
5415,3628,5716,0,
5418,4424,5717,0,
5421,2752,5718,0,
5417,2744,5719,0,
5420,2747,5720,0,
5419,2551,5721,0,
5425,4429,5722,0,
5427,4430,5723,0,
5426,3657,5724,0,
5424,5428,5725,0,
2271,5372,5726,0,
5423,5422,5727,0,
5327,2775,5728,0,
5430,5006,5729,0,
5429,4933,5730,0,
5432,4448,5731,0,
5441,2812,5732,0,
4471,5446,5733,0,
5444,3709,5734,0,
5443,4482,5735,0,
5029,5442,5736,0,
5449,4485,5737,0,
5420,4501,5738,0,
5452,3376,5739,0,
5451,4506,5740,0,
5437,2703,5741,0,
5506,2275,5742,0,
4508,5453,5743,0,
5459,4888,5744,0,
5460,3761,5745,0,
5456,2418,5746,0,
5463,3763,5747,0,
5059,5467,5748,0,
5465,5466,5749,0,
5468,3781,5750,0,
5378,5010,5751,0,
5473,5471,5752,0,
5477,4541,5753,0,
5479,5076,5754,0,
5478,4545,5755,0,
5480,4552,5756,0,
5044,5382,5757,0,
5483,4558,5758,0,
5481,3827,5759,0,
4557,5482,5760,0,
5089,5486,5761,0,
5489,2331,5762,0,
5490,4567,5763,0,
5484,5094,5764,0,
4565,5487,5765,0,
5491,3837,5766,0,
5493,5492,5767,0,
5322,2570,5768,0,
5494,5097,5769,0,
5496,3847,5770,0,
5497,3848,5771,0,
5499,2932,5772,0,
5503,4590,5773,0,
5502,3860,5774,0,
5506,3329,5775,0,
4459,5428,5776,0,
5501,4588,5777,0,
5508,4593,5778,0,
5509,4509,5779,0,
4305,5510,5780,0,
5511,2966,5781,0,
5357,2452,5782,0,
5513,2049,5783,0,
5312,4622,5784,0,
2458,5514,5785,0,
5517,4351,5786,0,
4410,5518,5787,0,
5429,2551,5788,0,
5434,2350,5789,0,
5523,2990,5790,0,
5522,4640,5791,0,
5456,2461,5792,0,
5524,3931,5793,0,
5526,3935,5794,0,
5143,5364,5795,0,
5161,5527,5796,0,
5529,2091,5797,0,
5530,2347,5798,0,
5509,2962,5799,0,
4659,5533,5800,0,
5505,2455,5801,0,
2350,5535,5802,0,
5536,3037,5803,0,
5534,5448,5804,0,
4613,5539,5805,0,
5540,3981,5806,0,
5541,4678,5807,0,
5045,5535,5808,0,
5514,2418,5809,0,
5544,4688,5810,0,
5546,4689,5811,0,
5199,5547,5812,0,
5548,3078,5813,0,
5549,5201,5814,0,
2478,5530,5815,0,
5550,4697,5816,0,
5371,4305,5817,0,
5552,3090,5818,0,
5554,3310,5819,0,
5556,2387,5820,0,
5557,5212,5821,0,
5558,4027,5822,0,
5391,3241,5823,0,
5561,5221,5824,0,
5565,2077,5825,0,
5564,4041,5826,0,
5510,2387,5827,0,
5566,4717,5828,0,
5410,2455,5829,0,
5568,5130,5830,0,
5227,5369,5831,0,
4733,5573,5832,1,
5572,5571,5833,0,
5229,5518,5834,0,
3950,5528,5835,0,
5578,5239,5836,0,
5579,5242,5837,1,
5579,0,5838,2,
2229,5580,5839,1,
5584,0,5840,2,
5585,5583,5841,0,
5580,0,5842,2,
5588,3165,5843,1,
5586,0,5844,2,
5256,5582,5845,0,
5587,5257,5846,1,
5587,0,5847,2,
5589,0,5848,2,
5592,0,5849,2,
5594,5595,5850,0,
1130,5596,5851,0,
5593,0,5852,2,
5598,5597,5853,0,
5592,4772,5854,1,
5599,0,5855,2,
5606,0,5856,2,
5602,0,5857,2,
5588,4113,5858,0,
5601,0,5859,2,
5274,5609,5860,0,
5608,5607,5861,0,
5618,0,5862,2,
5616,0,5863,2,
5611,5612,5864,1,
5615,5614,5865,0,
5601,4776,5866,0,
5619,0,5867,2,
5610,0,5868,2,
5617,0,5869,2,
5621,5620,5870,0,
5612,0,5871,2,
5622,0,5872,2,
5284,5623,5873,0,
5625,0,5874,2,
5624,0,5875,2,
5626,0,5876,2,
5627,5292,5877,1,
5627,0,5878,2,
5628,0,5879,2,
5629,0,5880,2,
5835,5577,5881,0,
5631,4134,5882,0,
5832,0,5883,2,
4824,5634,5884,0,
2426,5635,5885,0,
5313,5642,5886,0,
5637,4836,5887,0,
4202,5638,5888,0,
5644,2287,5889,0,
5643,4213,5890,0,
5645,5320,5891,0,
5641,2487,5892,0,
5641,5640,5893,0,
5639,3312,5894,0,
5317,5636,5895,0,
5648,5329,5896,0,
5329,5649,5897,0,
5651,4229,5898,0,
5331,5650,5899,0,
5646,5647,5900,0,
5659,4873,5901,0,
5655,3404,5902,0,
5654,3409,5903,0,
5353,5664,5904,0,
5663,4893,5905,0,
5644,2453,5906,0,
5661,3259,5907,0,
5666,5341,5908,0,
5660,5359,5909,0,
5365,5672,5910,1,
5360,5673,5911,0,
5671,3253,5912,0,
5668,4899,5913,0,
5669,5670,5914,0,
5665,2456,5915,0,
5677,2611,5916,0,
5675,3465,5917,0,
5680,3195,5918,0,
5660,4141,5919,0,
5681,3264,5920,0,
5672,0,5921,2,
5674,3465,5922,0,
5678,4310,5923,0,
5377,5687,5924,0,
5685,4319,5925,0,
5686,2515,5926,0,
5688,5682,5927,0,
5378,5683,5928,0,
2176,5689,5929,0,
4834,5690,5930,0,
5691,3566,5931,0,
5695,5395,5932,0,
5694,5394,5933,0,
5693,4231,5934,0,
5696,4940,5935,0,
5700,4959,5936,0,
2271,5644,5937,0,
5699,4951,5938,0,
5697,5366,5939,0,
5701,4961,5940,0,
5705,2714,5941,0,
5704,5703,5942,0,
5702,5398,5943,0,
5710,4978,5944,0,
5709,4413,5945,0,
5373,5706,5946,0,
5707,2727,5947,0,
5713,5416,5948,0,
5718,3659,5949,0,
5719,4438,5950,0,
5721,2773,5951,0,
5720,4442,5952,0,
5711,4186,5953,0,
5663,5004,5954,0,
5726,2035,5955,0,
5727,4452,5956,0,
5724,3677,5957,0,
5725,5723,5958,0,
5435,5649,5959,0,
5013,5729,5960,0,
5732,2616,5961,0,
5736,5450,5962,0,
5734,4496,5963,0,
5662,5729,5964,0,
5733,5034,5965,0,
5690,4505,5966,0,
5671,5307,5967,0,
5742,5455,5968,0,
5458,5740,5969,0,
5746,3512,5970,0,
5748,4526,5971,0,
5749,4528,5972,0,
5750,3788,5973,0,
5751,5475,5974,0,
5754,4546,5975,0,
5681,4491,5976,0,
5758,5087,5977,0,
5759,5090,5978,0,
5760,5091,5979,0,
5762,2909,5980,0,
5761,4570,5981,0,
5765,4572,5982,0,
5767,5495,5983,0,
5766,4577,5984,0,
2387,5768,5985,0,
5705,3285,5986,0,
5771,2461,5987,0,
5683,5362,5988,0,
5772,4591,5989,0,
5775,5776,5990,0,
5773,4594,5991,0,
5777,5118,5992,0,
5778,4602,5993,0,
4966,5715,5994,0,
5780,4613,5995,0,
5783,3303,5996,0,
5785,5784,5997,0,
5786,3919,5998,0,
5788,5153,5999,0,
5790,4641,6000,0,
5793,5159,6001,0,
5794,4646,6002,0,
5797,3953,6003,0,
5174,5799,6004,0,
5800,5176,6005,0,
5801,4656,6006,0,
5802,3969,6007,0,
5778,4405,6008,0,
5803,4666,6009,0,
5804,5183,6010,0,
5646,4807,6011,0,
5805,5189,6012,0,
4910,5665,6013,0,
5783,1959,6014,0,
5812,4692,6015,0,
5813,4693,6016,0,
5807,4625,6017,0,
5640,5539,6018,0,
5819,4705,6019,0,
5690,3329,6020,0,
5218,5633,6021,0,
5708,4937,6022,0,
4715,5825,6023,0,
2478,5771,6024,0,
5827,5567,6025,0,
5828,4721,6026,0,
5830,4967,6027,0,
5829,4501,6028,0,
5298,5632,6029,0,
4733,5632,6030,0,
5630,5295,6031,0,
5836,0,6032,2,
5838,5581,6033,0,
5839,0,6034,2,
5600,5846,6035,0,
5847,5590,6036,0,
5261,5848,6037,0,
5843,0,6038,2,
2229,5842,6039,0,
5591,5845,6040,1,
5840,5844,6041,0,
5841,0,6042,2,
5845,0,6043,2,
5855,5605,6044,0,
5851,0,6045,2,
5853,0,6046,2,
5837,5836,6047,1,
5850,0,6048,2,
5849,5266,6049,0,
5839,3158,6050,1,
4778,5854,6051,0,
5253,5846,6052,1,
5859,5278,6053,0,
5858,0,6054,2,
5843,5604,6055,1,
4109,5854,6056,1,
5861,0,6057,2,
5860,0,6058,2,
5862,5863,6059,0,
5864,0,6060,2,
5865,0,6061,2,
5841,5603,6062,1,
5283,5868,6063,0,
5869,5867,6064,0,
5870,0,6065,2,
5611,5871,6066,0,
5873,0,6067,2,
4790,5874,6068,0,
5877,0,6069,2,
5292,5878,6070,0,
5880,4796,6071,1,
5881,4798,6072,0,
5574,5883,6073,0,
5236,6030,6074,1,
5882,5990,6075,0,
5883,5294,6076,0,
5880,4796,6077,0,
4207,5885,6078,0,
5884,5315,6079,0,
5895,4239,6080,0,
5894,4860,6081,0,
5891,4859,6082,0,
5887,5890,6083,0,
5888,4852,6084,0,
5886,5324,6085,0,
5652,5892,6086,0,
5333,5893,6087,0,
5889,3352,6088,0,
5900,5657,6089,0,
5899,5658,6090,0,
5897,4863,6091,0,
5653,5896,6092,0,
5903,4282,6093,0,
5905,3439,6094,0,
5907,2295,6095,0,
5890,4900,6096,0,
5906,5667,6097,0,
5904,0,6098,2,
4309,5908,6099,0,
5915,4307,6100,0,
5909,5913,6101,0,
5676,5912,6102,0,
5910,0,6103,2,
5365,5921,6104,0,
5917,3488,6105,0,
5920,5684,6106,0,
5922,2620,6107,0,
5919,4140,6108,0,
5374,5916,6109,0,
5927,5925,6110,0,
5924,4929,6111,0,
5930,5389,6112,0,
2664,5929,6113,1,
5929,0,6114,2,
5935,4373,6115,0,
5931,3568,6116,0,
4956,5934,6117,0,
5932,4952,6118,0,
5933,5698,6119,0,
5939,5408,6120,0,
5937,5936,6121,0,
5940,4971,6122,0,
5942,2347,6123,0,
5946,5945,6124,0,
5711,5944,6125,0,
5947,3644,6126,0,
5948,4994,6127,0,
5949,4885,6128,0,
5944,2271,6129,0,
5951,5007,6130,0,
5950,2333,6131,0,
5954,5436,6132,0,
5953,5728,6133,0,
5958,5957,6134,0,
3686,5956,6135,0,
5955,3689,6136,0,
5959,4826,6137,0,
5961,2132,6138,0,
5963,5041,6139,0,
5965,5040,6140,0,
5962,5043,6141,0,
5966,2705,6142,0,
4515,5967,6143,0,
5938,4512,6144,0,
5970,5470,6145,0,
5972,5066,6146,0,
5973,3791,6147,0,
5882,4797,6148,0,
5974,4537,6149,0,
5976,5084,6150,0,
5977,5095,6151,0,
5764,5979,6152,0,
5958,5978,6153,0,
5980,2065,6154,0,
5982,5981,6155,0,
5983,5103,6156,0,
5984,2452,6157,0,
5986,5105,6158,0,
5985,5498,6159,0,
5987,4587,6160,0,
5989,5945,6161,0,
5988,5115,6162,0,
5992,5120,6163,0,
5297,5990,6164,0,
5994,5126,6165,0,
5993,3591,6166,0,
5957,5973,6167,0,
5995,5142,6168,0,
5996,2982,6169,0,
5997,5150,6170,0,
5998,4639,6171,0,
5359,5911,6172,0,
5792,5956,6173,0,
6001,2714,6174,0,
6004,4663,6175,0,
6002,5164,6176,0,
5534,5963,6177,0,
5982,5293,6178,0,
3791,6005,6179,0,
5980,6001,6180,0,
6007,5537,6181,0,
6008,4667,6182,0,
4573,6005,6183,0,
6010,4671,6184,0,
5981,6001,6185,0,
6013,2390,6186,0,
3986,5975,6187,0,
4680,6014,6188,0,
6000,3285,6189,0,
5979,2045,6190,0,
5906,2483,6191,0,
6016,5419,6192,0,
5972,5396,6193,0,
5925,5305,6194,0,
6017,2694,6195,0,
6019,4706,6196,0,
6022,5563,6197,0,
5013,5984,6198,0,
6023,4725,6199,0,
5831,6015,6200,0,
6025,5989,6201,0,
5949,4902,6202,0,
5834,6026,6203,0,
5833,5940,6204,0,
6029,0,6205,2,
5837,6032,6206,0,
6033,0,6207,2,
6034,4110,6208,0,
6036,0,6209,2,
6040,0,6210,2,
6037,5852,6211,0,
6040,6041,6212,1,
6039,0,6213,2,
6035,0,6214,2,
6038,5604,6215,0,
6041,0,6216,2,
5603,6042,6217,0,
6050,5857,6218,1,
5856,6048,6219,0,
6044,6045,6220,0,
6051,0,6221,2,
6049,0,6222,2,
6047,6046,6223,0,
5591,6043,6224,0,
6055,0,6225,2,
6053,0,6226,2,
6055,5860,6227,1,
6052,0,6228,2,
5866,6057,6229,0,
6050,5602,6230,0,
6056,5865,6231,1,
6056,0,6232,2,
6064,0,6233,2,
6059,0,6234,2,
6063,0,6235,2,
6062,0,6236,2,
6066,0,6237,2,
6047,0,6238,2,
5622,6059,6239,1,
6063,5875,6240,0,
6064,6062,6241,0,
5287,6068,6242,1,
6068,0,6243,2,
6070,0,6244,2,
6075,6072,6245,0,
6077,0,6246,2,
5327,6079,6247,0,
6078,5323,6248,0,
5898,6082,6249,0,
6080,4249,6250,0,
6084,4256,6251,0,
6088,4259,6252,0,
4869,6086,6253,0,
5656,6087,6254,0,
6085,6081,6255,0,
5902,6092,6256,0,
6090,4276,6257,0,
6091,5352,6258,0,
6093,4295,6259,0,
6079,5914,6260,0,
6097,6096,6261,0,
6098,4912,6262,1,
6095,4914,6263,0,
6094,5911,6264,0,
6092,5679,6265,0,
4912,6098,6266,0,
6100,4315,6267,0,
6102,5923,6268,0,
6105,4334,6269,0,
6107,3528,6270,0,
6109,5928,6271,0,
6108,5386,6272,0,
6104,0,6273,2,
6106,4332,6274,0,
6111,2452,6275,0,
6094,4882,6276,0,
2664,6114,6277,0,
6113,0,6278,2,
6112,4953,6279,0,
5383,6115,6280,0,
5409,6118,6281,0,
6119,4963,6282,0,
6117,4967,6283,0,
6116,4965,6284,0,
6120,4981,6285,0,
6121,5943,6286,0,
6122,4419,6287,0,
6127,4449,6288,0,
6131,5730,6289,0,
6130,5012,6290,0,
6129,5433,6291,0,
6128,5434,6292,0,
6132,5018,6293,0,
6134,5439,6294,0,
6135,5960,6295,0,
6136,4465,6296,0,
6133,4464,6297,0,
6137,5445,6298,0,
4507,6138,6299,0,
5738,6141,6300,0,
5457,6089,6301,0,
6140,5740,6302,0,
6139,5454,6303,0,
6144,3776,6304,0,
6143,5464,6305,0,
6142,4517,6306,0,
6081,3253,6307,0,
6145,5067,6308,0,
6146,5070,6309,0,
6147,5476,6310,0,
6148,5072,6311,0,
6149,5077,6312,0,
6151,5100,6313,0,
6153,6152,6314,0,
6154,2922,6315,0,
5102,6155,6316,0,
6156,4584,6317,0,
6159,5500,6318,0,
6160,5504,6319,0,
5401,6161,6320,0,
5128,6164,6321,0,
3883,6163,6322,0,
6166,5131,6323,0,
6165,5130,6324,0,
6141,5473,6325,0,
6168,5519,6326,0,
6169,4635,6327,0,
6170,5154,6328,0,
6171,5435,6329,0,
4872,6172,6330,0,
6111,5088,6331,0,
6118,2367,6332,0,
6174,5795,6333,0,
6096,5670,6334,0,
5001,6092,6335,0,
6179,4651,6336,0,
6177,2714,6337,0,
6181,5538,6338,0,
6180,6177,6339,0,
6184,4675,6340,0,
6183,5187,6341,0,
6185,5293,6342,0,
6186,3987,6343,0,
6188,3990,6344,0,
6190,2040,6345,0,
6191,3358,6346,0,
5203,6193,6347,0,
6194,4694,6348,0,
6195,5206,6349,0,
6138,2496,6350,0,
5737,6140,6351,0,
6089,4141,6352,0,
6198,5348,6353,0,
6171,5679,6354,0,
6196,3618,6355,0,
6026,6117,6356,0,
6199,5758,6357,0,
6156,4650,6358,0,
6027,6165,6359,0,
6201,5942,6360,0,
6200,5958,6361,0,
6031,6116,6362,0,
6205,5237,6363,0,
6074,0,6364,2,
6206,0,6365,2,
6208,0,6366,2,
6209,6214,6367,0,
6210,6216,6368,0,
6211,0,6369,2,
6217,0,6370,2,
6215,0,6371,2,
6220,0,6372,2,
6052,6220,6373,1,
6224,0,6374,2,
6219,0,6375,2,
6212,0,6376,2,
6222,6221,6377,0,
6218,0,6378,2,
6226,6057,6379,0,
6225,6058,6380,0,
6232,6061,6381,0,
6229,0,6382,2,
6219,6218,6383,1,
6230,0,6384,2,
5872,6234,6385,0,
6236,6233,6386,0,
5624,6235,6387,0,
6241,0,6388,2,
6242,0,6389,2,
5287,6243,6390,0,
5879,6244,6391,0,
6360,6204,6392,0,
6245,6362,6393,0,
6203,6361,6394,0,
5318,6246,6395,0,
6247,5660,6396,0,
6248,6083,6397,0,
6255,5901,6398,0,
6089,6250,6399,0,
6251,5662,6400,0,
6253,5354,6401,0,
6249,6252,6402,0,
6254,5349,6403,0,
6258,4297,6404,0,
4908,6259,6405,0,
6262,6103,6406,0,
6266,6103,6407,0,
6263,4328,6408,0,
6099,6265,6409,0,
6264,6101,6410,0,
6260,6261,6411,0,
6267,4333,6412,0,
6268,4927,6413,0,
6110,6269,6414,0,
6272,5393,6415,0,
6274,4352,6416,0,
6271,6081,6417,0,
6276,4241,6418,0,
6275,3264,6419,0,
6249,4900,6420,0,
6279,4964,6421,0,
5407,6278,6422,0,
6277,5407,6423,0,
6280,4415,6424,0,
6282,5708,6425,0,
5941,6281,6426,0,
6283,4979,6427,0,
6284,4800,6428,0,
6277,0,6429,2,
6266,0,6430,2,
6123,6285,6431,0,
6287,6124,6432,0,
5437,6288,6433,0,
6291,4470,6434,0,
6289,5438,6435,0,
6290,1949,6436,0,
6292,5024,6437,0,
6295,6294,6438,0,
6297,4480,6439,0,
6296,3530,6440,0,
6293,4473,6441,0,
6298,5036,6442,0,
3753,6299,6443,0,
5462,6302,6444,0,
6300,6301,6445,0,
6305,5469,6446,0,
6308,4176,6447,0,
6310,5075,6448,0,
5004,6312,6449,0,
6312,6115,6450,0,
6313,4578,6451,0,
6314,5769,6452,0,
6316,6315,6453,0,
6296,4140,6454,0,
6318,5505,6455,0,
6319,4595,6456,0,
6320,5125,6457,0,
5978,6252,6458,0,
5950,6321,6459,0,
6322,5779,6460,0,
6323,5137,6461,0,
6324,4620,6462,0,
6325,4288,6463,0,
6326,5303,6464,0,
6328,5791,6465,0,
6329,4574,6466,0,
4803,6257,6467,0,
6330,2347,6468,0,
6339,6338,6469,0,
6332,2434,6470,0,
6333,5169,6471,0,
6269,3543,6472,0,
6334,5345,6473,0,
6326,5003,6474,0,
6006,6335,6475,0,
6337,6336,6476,0,
6338,2112,6477,0,
4674,6285,6478,0,
6341,5188,6479,0,
6093,6328,6480,0,
6344,4683,6481,0,
5764,6290,6482,0,
5455,6318,6483,0,
6015,6328,6484,0,
6345,5011,6485,0,
6308,5732,6486,0,
6346,4267,6487,0,
6350,4026,6488,0,
6345,2108,6489,0,
6351,5129,6490,0,
6282,4355,6491,0,
6330,2714,6492,0,
6354,6355,6493,0,
6356,6357,6494,0,
6358,4063,6495,0,
6363,0,6496,2,
6207,6365,6497,0,
6213,6366,6498,0,
5613,6369,6499,0,
6054,6371,6500,0,
6223,6370,6501,0,
6368,0,6502,2,
6367,0,6503,2,
6377,0,6504,2,
6228,6372,6505,0,
6378,6375,6506,0,
6380,0,6507,2,
6046,6370,6508,0,
6227,6367,6509,1,
6381,0,6510,2,
6382,6065,6511,0,
6383,0,6512,2,
6385,0,6513,2,
6387,0,6514,2,
6386,0,6515,2,
6390,0,6516,2,
6071,6391,6517,1,
6477,3052,6518,0,
6469,6178,6519,0,
6397,6396,6520,0,
6398,6256,6521,0,
6479,5806,6522,0,
6392,6393,6523,1,
6393,0,6524,2,
6392,0,6525,2,
6494,6359,6526,0,
6391,0,6527,2,
6395,4867,6528,1,
6395,0,6529,2,
6394,0,6530,2,
6402,6400,6531,0,
6399,6403,6532,0,
6401,6257,6533,0,
6405,5918,6534,0,
6410,5384,6535,0,
6409,5926,6536,0,
6408,4338,6537,0,
6407,0,6538,2,
6411,0,6539,2,
6413,6412,6540,0,
6414,6413,6541,0,
6415,2412,6542,0,
6404,4398,6543,0,
6419,5405,6544,0,
6418,5938,6545,0,
6421,2478,6546,0,
6420,4972,6547,0,
6423,0,6548,2,
6427,5702,6549,0,
6424,4983,6550,0,
5715,6428,6551,0,
6431,6125,6552,0,
6422,3674,6553,0,
6433,5440,6554,0,
6434,5027,6555,0,
6436,2322,6556,0,
6437,5031,6557,0,
6393,6392,6558,0,
6435,5028,6559,0,
6438,5735,6560,0,
6440,6441,6561,0,
5033,6421,6562,0,
4498,6439,6563,0,
3746,6442,6564,0,
5457,6428,6565,0,
6303,6443,6566,0,
6445,6304,6567,0,
6307,6446,6568,0,
6448,5078,6569,0,
5485,6450,6570,0,
6415,5908,6571,0,
6452,5770,6572,0,
6451,4341,6573,0,
6454,5674,6574,0,
6453,2350,6575,0,
6456,5991,6576,0,
4505,6451,6577,0,
6457,5512,6578,0,
6446,4398,6579,0,
6459,6458,6580,0,
6460,4621,6581,0,
6462,5143,6582,0,
6461,5902,6583,0,
5789,6464,6584,0,
6000,6462,6585,0,
6465,5138,6586,0,
6466,5160,6587,0,
6468,6288,6588,0,
5791,6453,6589,0,
6471,4653,6590,0,
3954,6472,6591,0,
6453,2614,6592,0,
6473,4269,6593,0,
6474,3971,6594,0,
6412,4501,6595,0,
6478,6011,6596,0,
6441,5807,6597,0,
6480,4842,6598,0,
6481,6451,6599,0,
6482,5543,6600,0,
6483,6413,6601,0,
6484,6171,6602,0,
5182,6404,6603,0,
6442,6421,6604,0,
6456,4176,6605,0,
6488,4031,6606,0,
6469,6175,6607,0,
6489,1985,6608,0,
6490,6352,6609,0,
5823,6491,6610,0,
6481,5729,6611,0,
6492,6020,6612,0,
345,6496,6613,0,
6497,0,6614,2,
6498,0,6615,2,
6499,0,6616,2,
6374,6502,6617,0,
6497,6376,6618,0,
6227,6503,6619,0,
6500,0,6620,2,
6505,0,6621,2,
6506,0,6622,2,
6504,6060,6623,0,
6500,6231,6624,1,
6498,6373,6625,1,
6504,6060,6626,1,
6508,0,6627,2,
6509,0,6628,2,
6240,6515,6629,0,
6514,6515,6630,0,
6067,6513,6631,0,
5876,6516,6632,0,
5293,6518,6633,0,
2274,6523,6634,0,
1932,6524,6635,0,
1552,6524,6636,0,
2279,6525,6637,0,
6526,0,6638,2,
6526,6392,6639,0,
6536,5692,6640,0,
6517,0,6641,2,
6071,6527,6642,0,
6528,0,6643,2,
6529,4867,6644,0,
6526,6394,6645,1,
6392,6524,6646,0,
6520,0,6647,2,
6533,6404,6648,0,
6521,6532,6649,0,
1499,6524,6650,0,
1503,6523,6651,0,
6521,6520,6652,1,
6531,0,6653,2,
1502,6525,6654,0,
6521,0,6655,2,
1836,6525,6656,0,
1502,6524,6657,0,
6530,6411,6658,1,
6534,4936,6659,0,
6538,6273,6660,0,
6535,6270,6661,0,
2669,6525,6662,0,
1836,6524,6663,0,
1499,6530,6664,0,
6530,6539,6665,0,
6540,6417,6666,0,
1494,6524,6667,0,
1510,6523,6668,0,
2722,6525,6669,0,
1500,6525,6670,0,
6542,4807,6671,0,
6543,3534,6672,0,
6541,0,6673,2,
6544,4408,6674,0,
1494,6539,6675,0,
1500,6530,6676,0,
1547,6523,6677,0,
1548,6524,6678,0,
1494,6530,6679,0,
1629,6524,6680,0,
1424,6530,6681,0,
6548,5714,6682,0,
1840,6524,6683,0,
1549,6525,6684,0,
6546,6425,6685,0,
6286,6547,6686,0,
946,6530,6687,0,
1500,6539,6688,0,
1629,6530,6689,0,
1424,6539,6690,0,
6550,5000,6691,0,
6549,6551,6692,0,
1499,6539,6693,0,
1502,6530,6694,0,
1548,6530,6695,0,
1843,6524,6696,0,
2776,6525,6697,0,
6552,5431,6698,0,
1836,6530,6699,0,
1549,6530,6700,0,
1548,6539,6701,0,
1502,6539,6702,0,
946,6539,6703,0,
1840,6530,6704,0,
1629,6525,6705,0,
6554,5447,6706,0,
1500,6524,6707,0,
6557,5038,6708,0,
1629,6539,6709,0,
6559,5448,6710,0,
6556,2410,6711,0,
6532,0,6712,2,
1549,6524,6713,0,
1843,6525,6714,0,
6558,1034,6715,0,
6555,5901,6716,0,
6561,6562,6717,0,
6559,3194,6718,0,
1836,6539,6719,0,
6564,3327,6720,0,
1549,6539,6721,0,
1843,6530,6722,0,
6560,0,6723,2,
5969,6565,6724,0,
1840,6539,6725,0,
6566,5063,6726,0,
6567,5065,6727,0,
1843,6539,6728,0,
6568,5752,6729,0,
5975,6569,6730,0,
5661,6559,6731,0,
6157,6571,6732,0,
6573,6317,6733,0,
6572,0,6734,2,
6575,2347,6735,0,
6576,5123,6736,0,
6578,5135,6737,0,
5782,6579,6738,0,
6555,2157,6739,0,
6167,6581,6740,0,
6580,5515,6741,0,
4629,6582,6742,0,
6583,5144,6743,0,
6584,5999,6744,0,
6173,6585,6745,0,
6586,6467,6746,0,
1552,6525,6747,0,
6581,4651,6748,0,
6588,6331,6749,0,
6589,5798,6750,0,
4656,6590,6751,0,
6592,1985,6752,0,
6593,5182,6753,0,
6475,6594,6754,0,
6519,0,6755,2,
5982,6518,6756,0,
6596,6012,6757,0,
5808,6597,6758,0,
6537,5409,6759,0,
5809,6599,6760,0,
6601,6189,6761,0,
6602,6192,6762,0,
6603,6485,6763,0,
6605,5942,6764,0,
5815,6604,6765,0,
6196,6590,6766,0,
4034,6569,6767,0,
6608,4037,6768,0,
6607,0,6769,2,
6609,5562,6770,0,
6612,6610,6771,0,
2279,6539,6772,0,
6439,6581,6773,0,
2279,6530,6774,0,
1552,6530,6775,0,
1932,6539,6776,0,
1552,6539,6777,0,
1930,6524,6778,0,
1930,6530,6779,0,
6024,6569,6780,0,
2926,6530,6781,0,
2183,6524,6782,0,
2924,6523,6783,0,
1930,6525,6784,0,
2926,6524,6785,0,
1930,6539,6786,0,
2183,6539,6787,0,
2183,6525,6788,0,
2926,6539,6789,0,
2183,6530,6790,0,
1932,6530,6791,0,
6524,2279,6792,0,
5233,6525,6793,0,
6556,4393,6794,0,
4802,6525,6795,0,
6613,0,6796,2,
6614,6212,6797,0,
6373,6615,6798,0,
6619,0,6799,2,
6617,0,6800,2,
6231,6620,6801,0,
6618,0,6802,2,
6379,6616,6803,0,
6623,0,6804,2,
6384,6622,6805,0,
6624,0,6806,2,
6625,0,6807,2,
6617,6512,6808,0,
6627,6238,6809,0,
6629,0,6810,2,
6631,0,6811,2,
5877,6632,6812,1,
6632,0,6813,2,
6756,6522,6814,0,
6635,0,6815,2,
1076,6793,6816,1,
1930,6638,6817,0,
6639,0,6818,2,
1932,6638,6819,0,
6747,0,6820,2,
6666,0,6821,2,
6642,0,6822,2,
6644,0,6823,2,
6645,6524,6824,0,
6638,6646,6825,1,
6647,6531,6826,1,
6638,6530,6827,0,
6651,0,6828,2,
6650,0,6829,2,
1499,6638,6830,0,
6649,0,6831,2,
6648,0,6832,2,
6657,0,6833,2,
6656,0,6834,2,
6654,0,6835,2,
6647,6653,6836,0,
6655,6647,6837,0,
6537,6659,6838,0,
6658,0,6839,2,
1502,6638,6840,0,
6661,0,6841,2,
6640,0,6842,2,
1049,6662,6843,1,
6667,0,6844,2,
6668,0,6845,2,
6663,0,6846,2,
6665,0,6847,2,
6664,0,6848,2,
6671,6545,6849,0,
1629,6638,6850,0,
6670,0,6851,2,
1013,6669,6852,1,
1500,6638,6853,0,
946,6638,6854,0,
6675,0,6855,2,
6676,0,6856,2,
6678,0,6857,2,
6677,0,6858,2,
6674,4986,6859,0,
6426,6672,6860,0,
6684,0,6861,2,
1840,6638,6862,0,
6680,0,6863,2,
6679,0,6864,2,
6686,4998,6865,0,
1836,6638,6866,0,
6685,5717,6867,0,
6683,0,6868,2,
6681,0,6869,2,
1549,6638,6870,0,
6694,0,6871,2,
6693,0,6872,2,
6690,0,6873,2,
6687,0,6874,2,
6692,5952,6875,0,
6689,0,6876,2,
6688,0,6877,2,
6432,6691,6878,0,
6696,0,6879,2,
1037,6697,6880,1,
6695,0,6881,2,
1843,6638,6882,0,
6682,0,6883,2,
6698,5016,6884,0,
6699,0,6885,2,
6702,0,6886,2,
6700,0,6887,2,
6701,0,6888,2,
6703,0,6889,2,
1494,6638,6890,0,
6648,6532,6891,1,
6704,0,6892,2,
1548,6638,6893,0,
6707,0,6894,2,
6705,0,6895,2,
6714,0,6896,2,
6709,0,6897,2,
6713,0,6898,2,
6710,5964,6899,0,
6711,2841,6900,0,
5737,6708,6901,0,
6563,6716,6902,0,
6659,6250,6903,0,
6717,5461,6904,0,
6720,2861,6905,0,
6719,0,6906,2,
6718,5055,6907,0,
6721,0,6908,2,
6722,0,6909,2,
6725,0,6910,2,
6726,4330,6911,0,
6727,0,6912,2,
1499,6723,6913,0,
6728,0,6914,2,
6729,6309,6915,0,
6691,5936,6916,0,
6730,5757,6917,0,
1502,6723,6918,0,
6731,4566,6919,0,
1549,6723,6920,0,
1548,6723,6921,0,
2279,6723,6922,0,
1843,6723,6923,0,
2926,6723,6924,0,
6732,6158,6925,0,
1836,6723,6926,0,
1494,6723,6927,0,
6733,6574,6928,0,
6735,6455,6929,0,
1424,6723,6930,0,
946,6723,6931,0,
1629,6723,6932,0,
1500,6723,6933,0,
2183,6723,6934,0,
1840,6723,6935,0,
6736,6577,6936,0,
6737,5138,6937,0,
6738,5516,6938,0,
6741,5146,6939,0,
6740,6463,6940,0,
6739,1992,6941,0,
6648,6532,6942,0,
6742,6743,6943,0,
1930,6723,6944,0,
6746,5796,6945,0,
6745,6587,6946,0,
6748,6176,6947,0,
6749,5531,6948,0,
6750,6591,6949,0,
6751,2807,6950,0,
6752,3038,6951,0,
6754,6009,6952,0,
6595,6753,6953,0,
6726,6340,6954,0,
5898,6659,6955,0,
6598,6759,6956,0,
6760,6600,6957,0,
6761,5811,6958,0,
6762,5814,6959,0,
6487,6737,6960,0,
6347,6763,6961,0,
6486,6708,6962,0,
6764,5817,6963,0,
6765,6348,6964,0,
6766,6016,6965,0,
1552,6723,6966,0,
6767,6611,6967,0,
6768,4714,6968,0,
6633,6522,6969,0,
6771,5824,6970,0,
6772,0,6971,2,
2279,6638,6972,0,
1932,6723,6973,0,
2183,6638,6974,0,
6353,6773,6975,0,
2926,6638,6976,0,
6774,0,6977,2,
6776,0,6978,2,
6775,0,6979,2,
6777,0,6980,2,
6780,5570,6981,0,
6461,6691,6982,0,
6782,0,6983,2,
6784,0,6984,2,
6785,0,6985,2,
6783,0,6986,2,
6778,0,6987,2,
6786,0,6988,2,
6787,0,6989,2,
6781,0,6990,2,
6779,0,6991,2,
6638,1552,6992,0,
6790,0,6993,2,
6789,0,6994,2,
6788,0,6995,2,
6794,4064,6996,0,
6637,0,6997,2,
6636,0,6998,2,
6634,0,6999,2,
6791,0,7000,2,
6792,0,7001,2,
6796,31,7002,0,
6797,0,7003,2,
6798,0,7004,2,
6383,6800,7005,0,
6801,0,7006,2,
6507,6799,7007,0,
6803,0,7008,2,
6805,0,7009,2,
6237,6804,7010,0,
6807,0,7011,2,
6806,0,7012,2,
6808,0,7013,2,
6809,0,7014,2,
6811,6389,7015,1,
6810,6388,7016,0,
6389,6811,7017,0,
6069,6813,7018,0,
6770,6968,7019,0,
6816,1076,7020,0,
6816,1293,7021,1,
6820,6815,7022,0,
2274,6825,7023,0,
6996,4740,7024,0,
6843,1192,7025,1,
6970,0,7026,2,
6769,6969,7027,1,
6994,6993,7028,0,
6817,0,7029,2,
6607,6969,7030,0,
6838,6416,7031,0,
6954,6518,7032,0,
6155,6954,7033,0,
6824,6818,7034,0,
6827,0,7035,2,
6826,0,7036,2,
1503,6825,7037,0,
6830,0,7038,2,
6831,6832,7039,0,
6818,6524,7040,0,
6829,6828,7041,0,
6837,0,7042,2,
6836,0,7043,2,
6843,1049,7044,0,
6842,6541,7045,1,
6840,0,7046,2,
6841,6666,7047,1,
6841,6411,7048,1,
6844,6845,7049,0,
6841,6539,7050,0,
6852,1163,7051,1,
6850,0,7052,2,
6841,6821,7053,0,
6849,5712,7054,0,
6842,6673,7055,0,
6878,0,7056,2,
1494,6841,7057,0,
6853,0,7058,2,
6857,6858,7059,0,
6859,2635,7060,0,
6854,0,7061,2,
6855,6856,7062,0,
6860,5716,7063,0,
6852,1013,7064,0,
6862,0,7065,2,
6867,5722,7066,0,
6866,0,7067,2,
6865,0,7068,2,
6870,0,7069,2,
1499,6841,7070,0,
6875,5731,7071,0,
6873,6874,7072,0,
6872,6871,7073,0,
1424,6841,7074,0,
6884,0,7075,2,
6882,0,7076,2,
3674,6883,7077,0,
6880,1037,7078,0,
6825,0,7079,2,
1510,6825,7080,0,
6888,6887,7081,0,
6532,6832,7082,0,
6812,0,7083,2,
1494,6821,7084,0,
1500,6841,7085,0,
1629,6841,7086,0,
1500,6821,7087,0,
1547,6825,7088,0,
6890,0,7089,2,
6893,0,7090,2,
1037,6880,7091,1,
1502,6841,7092,0,
6901,5741,7093,0,
6902,5743,7094,0,
6899,5739,7095,0,
6900,3756,7096,0,
1499,6821,7097,0,
1548,6841,7098,0,
6904,5057,7099,0,
5968,6903,7100,0,
1424,6821,7101,0,
946,6841,7102,0,
6724,6905,7103,0,
6444,6907,7104,0,
1836,6821,7105,0,
1548,6821,7106,0,
1549,6841,7107,0,
6911,2350,7108,0,
1502,6821,7109,0,
1836,6841,7110,0,
1549,6821,7111,0,
1629,6821,7112,0,
1843,6841,7113,0,
6915,5753,7114,0,
6913,0,7115,2,
946,6821,7116,0,
1840,6841,7117,0,
1843,6821,7118,0,
6916,6449,7119,0,
1840,6821,7120,0,
6917,6150,7121,0,
6570,6919,7122,0,
6918,0,7123,2,
6920,0,7124,2,
6921,0,7125,2,
6922,0,7126,2,
6923,0,7127,2,
6925,5507,7128,0,
6926,0,7129,2,
6924,0,7130,2,
6928,5774,7131,0,
6927,0,7132,2,
6931,0,7133,2,
6929,6162,7134,0,
6930,0,7135,2,
6933,0,7136,2,
6939,0,7137,2,
6932,0,7138,2,
6935,0,7139,2,
6934,0,7140,2,
6936,5781,7141,0,
6938,5147,7142,0,
6937,5991,7143,0,
6941,4203,7144,0,
6940,5520,7145,0,
6943,6327,7146,0,
6944,0,7147,2,
6946,5170,7148,0,
6945,5167,7149,0,
6947,6470,7150,0,
6948,5173,7151,0,
6949,5532,7152,0,
6950,3966,7153,0,
6476,6951,7154,0,
6952,0,7155,2,
6953,6182,7156,0,
6941,2281,7157,0,
6519,6814,7158,1,
6814,0,7159,2,
6187,6955,7160,0,
6956,5542,7161,0,
6957,5810,7162,0,
6958,5197,7163,0,
6959,5551,7164,0,
6961,5816,7165,0,
6962,5553,7166,0,
6960,6018,7167,0,
6964,5208,7168,0,
6963,6349,7169,0,
5820,6965,7170,0,
6966,0,7171,2,
6967,6197,7172,0,
1932,6821,7173,0,
1552,6841,7174,0,
2279,6821,7175,0,
1932,6841,7176,0,
6972,0,7177,2,
2924,6825,7178,0,
1930,6841,7179,0,
6973,0,7180,2,
2183,6821,7181,0,
2183,6841,7182,0,
2926,6821,7183,0,
2926,6841,7184,0,
6975,5569,7185,0,
6976,0,7186,2,
6978,6979,7187,0,
6859,5693,7188,0,
6974,0,7189,2,
1552,6821,7190,0,
6985,6986,7191,0,
6028,6982,7192,0,
6981,6493,7193,0,
1930,6821,7194,0,
6819,0,7195,2,
6992,0,7196,2,
6001,6969,7197,0,
2279,6841,7198,0,
6501,7003,7199,0,
6621,7004,7200,0,
7005,0,7201,2,
6511,7008,7202,0,
7007,0,7203,2,
6510,7006,7204,0,
6807,7009,7205,0,
6239,7010,7206,1,
7007,7012,7207,0,
6805,7011,7208,0,
7014,7003,7209,0,
7010,0,7210,2,
7017,0,7211,2,
7015,0,7212,2,
7018,0,7213,2,
7150,6003,7214,0,
7149,0,7215,2,
7198,0,7216,2,
7022,6999,7217,0,
1836,7137,7218,0,
7192,5576,7219,0,
7121,5763,7220,0,
7193,5575,7221,0,
3122,7027,7222,0,
7141,5140,7223,0,
7194,0,7224,2,
7030,0,7225,2,
7165,0,7226,2,
7191,6995,7227,0,
7018,6641,7228,0,
7034,0,7229,2,
7037,0,7230,2,
6652,7036,7231,0,
6645,7040,7232,1,
7038,6833,7233,0,
7041,6835,7234,0,
7043,7042,7235,0,
7031,0,7236,2,
6848,7046,7237,0,
7045,0,7238,2,
7047,0,7239,2,
7048,0,7240,2,
6531,7031,7241,1,
7049,6851,7242,0,
7050,0,7243,2,
7053,0,7244,2,
7056,6821,7245,0,
7054,6126,7246,0,
7055,0,7247,2,
6541,6640,7248,1,
7248,7031,7249,0,
6541,7249,7250,1,
6864,7058,7251,0,
6869,7061,7252,0,
7063,0,7253,2,
7051,0,7254,2,
7060,2121,7255,0,
7059,6861,7256,0,
7057,0,7257,2,
7056,6666,7258,1,
7021,0,7259,2,
7068,6878,7260,1,
7071,0,7261,2,
7066,0,7262,2,
7068,7071,7263,1,
7070,0,7264,2,
6881,7069,7265,0,
7077,0,7266,2,
6640,7031,7267,1,
7074,0,7268,2,
7025,0,7269,2,
7068,7056,7270,0,
7015,7083,7271,1,
1494,7056,7272,0,
6655,7082,7273,1,
7080,0,7274,2,
7087,0,7275,2,
7089,6894,7276,0,
7088,0,7277,2,
7085,0,7278,2,
7086,0,7279,2,
7084,0,7280,2,
7075,6560,7281,1,
7039,6652,7282,0,
7090,6898,7283,0,
7039,6652,7284,1,
7095,7096,7285,0,
7094,5745,7286,0,
7093,5744,7287,0,
7098,0,7288,2,
7075,6723,7289,0,
7092,0,7290,2,
7097,0,7291,2,
7100,6306,7292,0,
7099,0,7293,2,
7101,0,7294,2,
7102,0,7295,2,
7104,5971,7296,0,
7103,5472,7297,0,
1499,7068,7298,0,
1499,7056,7299,0,
7105,0,7300,2,
1836,7056,7301,0,
1502,7068,7302,0,
1502,7056,7303,0,
1500,7056,7304,0,
1548,7056,7305,0,
1494,7068,7306,0,
7107,0,7307,2,
7106,0,7308,2,
7109,0,7309,2,
7110,0,7310,2,
7108,6447,7311,0,
7112,0,7312,2,
1836,7068,7313,0,
1502,7075,7314,0,
1499,7075,7315,0,
7111,0,7316,2,
1424,7056,7317,0,
7113,0,7318,2,
1549,7056,7319,0,
1548,7068,7320,0,
1843,7056,7321,0,
6912,7114,7322,1,
1548,7075,7323,0,
1549,7068,7324,0,
1843,7068,7325,0,
7116,0,7326,2,
7117,0,7327,2,
7118,0,7328,2,
946,7068,7329,0,
1840,7056,7330,0,
7114,0,7331,2,
1629,7056,7332,0,
1500,7068,7333,0,
946,7056,7334,0,
1424,7068,7335,0,
7119,5756,7336,0,
7120,0,7337,2,
1836,7075,7338,0,
1629,7068,7339,0,
1494,7075,7340,0,
1843,7075,7341,0,
7122,5098,7342,0,
1549,7075,7343,0,
1930,7068,7344,0,
1424,7075,7345,0,
1840,7068,7346,0,
2926,7075,7347,0,
2183,7075,7348,0,
1500,7075,7349,0,
1840,7075,7350,0,
946,7075,7351,0,
6734,7131,7352,1,
7128,0,7353,2,
7134,5127,7354,0,
1629,7075,7355,0,
1930,7075,7356,0,
7131,0,7357,2,
7143,5787,7358,0,
7142,5424,7359,0,
7144,3924,7360,0,
7131,7145,7361,1,
7145,0,7362,2,
1494,7137,7363,0,
7146,0,7364,2,
7148,0,7365,2,
1500,7137,7366,0,
7151,0,7367,2,
1424,7137,7368,0,
946,7137,7369,0,
1548,7137,7370,0,
1549,7137,7371,0,
6175,7153,7372,0,
7152,0,7373,2,
1932,7137,7374,0,
1843,7137,7375,0,
1629,7137,7376,0,
1840,7137,7377,0,
1499,7137,7378,0,
7156,5184,7379,0,
7157,1961,7380,0,
1502,7137,7381,0,
7154,0,7382,2,
1552,7137,7383,0,
7032,0,7384,2,
7159,6755,7385,0,
7032,6522,7386,0,
2279,7137,7387,0,
2926,7137,7388,0,
7033,7032,7389,1,
7160,6343,7390,0,
7033,0,7391,2,
2183,7137,7392,0,
7197,0,7393,2,
7161,5545,7394,0,
7162,0,7395,2,
7163,0,7396,2,
1930,7137,7397,0,
7164,0,7398,2,
7167,5209,7399,0,
7166,5818,7400,0,
7169,5211,7401,0,
7168,0,7402,2,
7142,4656,7403,0,
7153,6163,7404,0,
7170,5822,7405,0,
2279,7075,7406,0,
2183,7068,7407,0,
1930,7056,7408,0,
7172,5826,7409,0,
7019,0,7410,2,
1552,7075,7411,0,
7173,0,7412,2,
2279,7056,7413,0,
1932,7075,7414,0,
1552,7068,7415,0,
1552,7056,7416,0,
2279,7068,7417,0,
1932,7068,7418,0,
7174,0,7419,2,
7176,0,7420,2,
2184,7027,7421,0,
2926,7056,7422,0,
7175,0,7423,2,
2183,7056,7424,0,
2926,7068,7425,0,
7183,0,7426,2,
7178,0,7427,2,
7184,0,7428,2,
7181,0,7429,2,
7179,0,7430,2,
7182,0,7431,2,
6202,7188,7432,0,
1932,7056,7433,0,
7185,5231,7434,0,
7186,6983,7435,0,
6990,7189,7436,0,
7023,0,7437,2,
7195,6998,7438,0,
7001,7196,7439,0,
7028,7029,7440,0,
1296,7027,7441,0,
7190,0,7442,2,
7199,0,7443,2,
7200,0,7444,2,
6806,7203,7445,0,
6626,7204,7446,1,
7204,0,7447,2,
7202,0,7448,2,
7200,6509,7449,0,
7205,0,7450,2,
7206,0,7451,2,
7207,0,7452,2,
7209,7201,7453,0,
6239,7210,7454,0,
7212,6242,7455,0,
6178,7372,7456,0,
1499,7367,7457,0,
7026,7221,7458,1,
1076,7217,7459,1,
1930,7373,7460,0,
7432,6495,7461,0,
6074,7225,7462,0,
7232,2274,7463,0,
7439,7000,7464,0,
6076,7225,7465,0,
7219,7024,7466,0,
7221,0,7467,2,
7228,0,7468,2,
7229,7035,7469,0,
7231,7039,7470,0,
7230,6834,7471,0,
1503,7232,7472,0,
1049,7234,7473,1,
7236,6842,7474,0,
1510,7232,7475,0,
1550,7232,7476,0,
7240,7239,7477,0,
6653,7236,7478,0,
1013,7242,7479,1,
1547,7232,7480,0,
6673,7246,7481,1,
7243,7244,7482,0,
7245,0,7483,2,
7246,0,7484,2,
7255,2624,7485,0,
7253,7066,7486,1,
1037,7256,7487,1,
7257,6877,7488,0,
7258,0,7489,2,
7260,0,7490,2,
7253,7262,7491,0,
7261,7075,7492,0,
7263,0,7493,2,
7264,6886,7494,0,
7268,6889,7495,0,
7266,4486,7496,0,
7068,7261,7497,0,
7261,6884,7498,1,
7267,7238,7499,0,
7274,6895,7500,0,
7272,0,7501,2,
7270,0,7502,2,
7282,0,7503,2,
7281,0,7504,2,
7277,6896,7505,0,
7280,7278,7506,0,
7063,7246,7507,1,
7285,0,7508,2,
7287,5747,7509,0,
7288,6908,7510,0,
7289,0,7511,2,
7286,0,7512,2,
7291,7290,7513,0,
7296,0,7514,2,
7292,5474,7515,0,
7294,7295,7516,0,
7298,0,7517,2,
7297,0,7518,2,
7293,7285,7519,1,
1836,7261,7520,0,
7301,0,7521,2,
7302,0,7522,2,
7303,0,7523,2,
1499,7261,7524,0,
7299,0,7525,2,
7304,0,7526,2,
7306,0,7527,2,
1502,7261,7528,0,
7305,0,7529,2,
7308,7307,7530,0,
7311,6311,7531,0,
7313,0,7532,2,
7314,0,7533,2,
7315,0,7534,2,
1549,7261,7535,0,
1548,7261,7536,0,
7317,0,7537,2,
7324,0,7538,2,
7320,0,7539,2,
7319,0,7540,2,
1424,7261,7541,0,
7321,0,7542,2,
7325,0,7543,2,
7323,0,7544,2,
7322,0,7545,2,
1494,7261,7546,0,
7330,0,7547,2,
7329,0,7548,2,
6912,7331,7549,0,
7333,0,7550,2,
7332,0,7551,2,
1500,7261,7552,0,
7334,0,7553,2,
7336,5488,7554,0,
7335,0,7555,2,
7340,0,7556,2,
7339,0,7557,2,
7338,0,7558,2,
7341,0,7559,2,
7114,7342,7560,1,
1843,7261,7561,0,
7342,0,7562,2,
7343,0,7563,2,
2183,7261,7564,0,
7220,0,7565,2,
946,7261,7566,0,
7346,0,7567,2,
7345,0,7568,2,
7347,0,7569,2,
7344,0,7570,2,
1930,7261,7571,0,
6734,7342,7572,1,
7348,0,7573,2,
1629,7261,7574,0,
1840,7261,7575,0,
7349,0,7576,2,
7350,0,7577,2,
7351,0,7578,2,
7352,0,7579,2,
7354,0,7580,2,
7355,0,7581,2,
7356,0,7582,2,
6734,7357,7583,0,
7273,0,7584,2,
7137,7223,7585,1,
7223,0,7586,2,
7359,5471,7587,0,
7358,5521,7588,0,
7360,3928,7589,0,
7357,7362,7590,0,
1548,7353,7591,0,
1629,7353,7592,0,
7363,0,7593,2,
1836,7215,7594,0,
1499,7353,7595,0,
1932,7353,7596,0,
1424,7353,7597,0,
1549,7353,7598,0,
7366,0,7599,2,
946,7353,7600,0,
7214,0,7601,2,
1840,7353,7602,0,
1502,7353,7603,0,
7215,7151,7604,1,
7367,7152,7605,1,
7368,0,7606,2,
1843,7353,7607,0,
7369,0,7608,2,
7370,0,7609,2,
1552,7353,7610,0,
2279,7353,7611,0,
7367,7373,7612,0,
7215,7367,7613,0,
7371,0,7614,2,
7374,0,7615,2,
1548,7215,7616,0,
7375,0,7617,2,
1424,7215,7618,0,
7376,0,7619,2,
7377,0,7620,2,
1836,7353,7621,0,
2926,7353,7622,0,
1494,7215,7623,0,
7373,7154,7624,1,
7378,0,7625,2,
1502,7373,7626,0,
1499,7382,7627,0,
7373,7382,7628,0,
1836,7367,7629,0,
7380,3051,7630,0,
7381,0,7631,2,
1548,7367,7632,0,
1549,7215,7633,0,
1500,7215,7634,0,
1494,7367,7635,0,
2183,7353,7636,0,
946,7215,7637,0,
1424,7367,7638,0,
7382,7032,7639,1,
7383,0,7640,2,
7255,3504,7641,0,
1629,7215,7642,0,
1494,7373,7643,0,
1424,7373,7644,0,
1500,7367,7645,0,
946,7367,7646,0,
1840,7215,7647,0,
7387,0,7648,2,
7385,0,7649,2,
1549,7367,7650,0,
6342,7386,7651,0,
1548,7373,7652,0,
7382,7384,7653,0,
1843,7215,7654,0,
1930,7353,7655,0,
1840,7373,7656,0,
946,7382,7657,0,
946,7373,7658,0,
1932,7215,7659,0,
1424,7384,7660,0,
1840,7367,7661,0,
1424,7382,7662,0,
7388,0,7663,2,
1548,7382,7664,0,
1549,7373,7665,0,
1629,7367,7666,0,
1500,7373,7667,0,
1494,7382,7668,0,
1843,7367,7669,0,
1552,7215,7670,0,
1932,7367,7671,0,
7390,5192,7672,0,
7392,0,7673,2,
946,7384,7674,0,
1836,7382,7675,0,
1424,7391,7676,0,
1840,7382,7677,0,
1499,7391,7678,0,
1502,7384,7679,0,
1836,7384,7680,0,
1502,7391,7681,0,
1499,7393,7682,0,
1424,7393,7683,0,
1840,7384,7684,0,
1843,7373,7685,0,
1549,7382,7686,0,
1548,7384,7687,0,
946,7391,7688,0,
1494,7384,7689,0,
1500,7382,7690,0,
1629,7373,7691,0,
2183,7373,7692,0,
2926,7382,7693,0,
1930,7367,7694,0,
2926,7367,7695,0,
2183,7215,7696,0,
1840,7391,7697,0,
1836,7391,7698,0,
7395,7394,7699,1,
946,7393,7700,0,
1502,7393,7701,0,
7394,7395,7702,0,
7394,0,7703,2,
2926,7391,7704,0,
1930,7382,7705,0,
2183,7384,7706,0,
2279,7393,7707,0,
1930,7384,7708,0,
2926,7393,7709,0,
2183,7391,7710,0,
1552,7367,7711,0,
7397,0,7712,2,
1932,7373,7713,0,
2279,7215,7714,0,
1930,7391,7715,0,
2926,7215,7716,0,
1629,7382,7717,0,
1500,7384,7718,0,
1932,7382,7719,0,
1552,7373,7720,0,
1494,7391,7721,0,
2279,7367,7722,0,
2183,7393,7723,0,
1836,7393,7724,0,
1500,7391,7725,0,
1494,7393,7726,0,
1629,7384,7727,0,
7398,7165,7728,1,
7399,5210,7729,0,
7400,5555,7730,0,
7401,0,7731,2,
2279,7373,7732,0,
1552,7382,7733,0,
1932,7384,7734,0,
1930,7393,7735,0,
7164,7226,7736,0,
1629,7391,7737,0,
7403,5022,7738,0,
1500,7393,7739,0,
7405,5214,7740,0,
7404,6002,7741,0,
1629,7393,7742,0,
7398,7401,7743,1,
7401,7398,7744,0,
1932,7391,7745,0,
2279,7382,7746,0,
1552,7384,7747,0,
1549,7384,7748,0,
1843,7382,7749,0,
1548,7391,7750,0,
7222,7225,7751,0,
1552,7391,7752,0,
2279,7384,7753,0,
1932,7393,7754,0,
1840,7393,7755,0,
2926,7261,7756,0,
7406,0,7757,2,
7408,0,7758,2,
7407,0,7759,2,
1836,7373,7760,0,
1502,7382,7761,0,
2279,7391,7762,0,
1499,7384,7763,0,
7225,5294,7764,0,
1932,7261,7765,0,
2279,7261,7766,0,
7225,5633,7767,0,
1552,7261,7768,0,
1552,7393,7769,0,
2924,7232,7770,0,
7412,6971,7771,0,
7417,0,7772,2,
7415,0,7773,2,
7411,0,7774,2,
7026,7409,7775,1,
7409,0,7776,2,
7414,0,7777,2,
7413,0,7778,2,
7409,7410,7779,0,
1843,7393,7780,0,
7416,0,7781,2,
7418,0,7782,2,
2926,7384,7783,0,
2183,7382,7784,0,
2183,7367,7785,0,
2926,7373,7786,0,
1500,7353,7787,0,
7421,7225,7788,0,
7420,6980,7789,0,
1843,7391,7790,0,
7221,7026,7791,0,
1548,7393,7792,0,
1549,7391,7793,0,
7422,0,7794,2,
7425,0,7795,2,
1549,7393,7796,0,
7426,7431,7797,0,
7424,0,7798,2,
1499,7373,7799,0,
1502,7367,7800,0,
1499,7215,7801,0,
1494,7353,7802,0,
1930,7215,7803,0,
7427,6984,7804,0,
7027,7225,7805,0,
7428,6989,7806,0,
7218,0,7807,2,
7437,6997,7808,0,
7227,0,7809,2,
7433,0,7810,2,
1843,7384,7811,0,
1502,7215,7812,0,
7441,7225,7813,0,
6802,7443,7814,0,
6628,7444,7815,0,
6626,7447,7816,0,
7445,0,7817,2,
6630,7448,7818,0,
7446,0,7819,2,
7454,0,7820,2,
7455,0,7821,2,
1494,7565,7822,0,
7554,0,7823,2,
7435,7804,7824,0,
7803,0,7825,2,
7515,0,7826,2,
7442,7810,7827,0,
7461,4801,7828,0,
7800,0,7829,2,
7799,0,7830,2,
7459,0,7831,2,
7796,0,7832,2,
1502,7586,7833,0,
7531,5755,7834,0,
7463,0,7835,2,
7801,0,7836,2,
7466,7467,7837,0,
7812,0,7838,2,
7457,0,7839,2,
6822,7468,7840,0,
7469,0,7841,2,
7233,7471,7842,0,
7449,0,7843,2,
7470,0,7844,2,
7472,0,7845,2,
7473,0,7846,2,
7474,7238,7847,0,
7475,0,7848,2,
7478,0,7849,2,
7476,0,7850,2,
7479,0,7851,2,
7258,7483,7852,0,
7480,0,7853,2,
7481,0,7854,2,
7482,7483,7855,0,
7487,0,7856,2,
7459,7020,7857,1,
7486,0,7858,2,
7485,2293,7859,0,
7484,7253,7860,0,
7479,7064,7861,1,
7487,7078,7862,1,
6673,7484,7863,0,
7492,0,7864,2,
7063,7066,7865,1,
7865,7484,7866,0,
7063,7866,7867,1,
7491,0,7868,2,
7495,6892,7869,0,
7497,0,7870,2,
7276,7500,7871,0,
7501,7275,7872,0,
7473,7044,7873,1,
7474,0,7874,2,
7503,7042,7875,0,
7283,7505,7876,0,
7498,0,7877,2,
7293,7508,7878,0,
7512,7099,7879,1,
7509,0,7880,2,
6723,7509,7881,1,
7512,7293,7882,0,
7514,7515,7883,1,
7517,7300,7884,0,
7518,6912,7885,0,
7508,7518,7886,0,
7508,7297,7887,1,
7524,0,7888,2,
7522,7521,7889,0,
7525,7309,7890,0,
7518,6727,7891,1,
7520,0,7892,2,
7529,7316,7893,0,
7528,0,7894,2,
7527,7526,7895,0,
7536,0,7896,2,
7535,0,7897,2,
7537,7326,7898,0,
7539,7540,7899,0,
7541,0,7900,2,
7546,0,7901,2,
7519,0,7902,2,
7549,0,7903,2,
7552,0,7904,2,
7555,7553,7905,0,
1932,7514,7906,0,
7561,0,7907,2,
1548,7514,7908,0,
7331,7562,7909,0,
1552,7514,7910,0,
1843,7514,7911,0,
7125,7563,7912,0,
7566,0,7913,2,
7564,0,7914,2,
1499,7514,7915,0,
7571,0,7916,2,
7130,7573,7917,0,
7565,7128,7918,1,
7572,0,7919,2,
1549,7514,7920,0,
7574,0,7921,2,
6734,7562,7922,0,
7575,0,7923,2,
7132,7576,7924,0,
1502,7514,7925,0,
2279,7514,7926,0,
1494,7514,7927,0,
7565,7353,7928,0,
7135,7578,7929,0,
1424,7514,7930,0,
1836,7514,7931,0,
7580,7353,7932,0,
7580,7128,7933,1,
7580,7137,7934,0,
1548,7565,7935,0,
1840,7514,7936,0,
7583,0,7937,2,
946,7514,7938,0,
7580,6939,7939,1,
7585,0,7940,2,
2926,7514,7941,0,
7137,7586,7942,0,
1500,7514,7943,0,
7587,5525,7944,0,
7588,5156,7945,0,
1932,7565,7946,0,
1549,7565,7947,0,
1500,7580,7948,0,
2183,7514,7949,0,
7591,0,7950,2,
6744,7589,7951,0,
7590,0,7952,2,
7592,0,7953,2,
1499,7565,7954,0,
1424,7565,7955,0,
1502,7565,7956,0,
1552,7565,7957,0,
946,7565,7958,0,
7595,0,7959,2,
1548,7580,7960,0,
7597,0,7961,2,
1629,7580,7962,0,
1494,7586,7963,0,
1930,7514,7964,0,
7596,0,7965,2,
1843,7565,7966,0,
7598,0,7967,2,
1840,7565,7968,0,
1424,7580,7969,0,
946,7580,7970,0,
1840,7580,7971,0,
1424,7586,7972,0,
1499,7580,7973,0,
1836,7565,7974,0,
7602,0,7975,2,
1549,7580,7976,0,
7600,0,7977,2,
1548,7586,7978,0,
1843,7580,7979,0,
7605,0,7980,2,
7607,0,7981,2,
7604,0,7982,2,
7603,0,7983,2,
2279,7565,7984,0,
1932,7580,7985,0,
1552,7580,7986,0,
7610,0,7987,2,
1549,7586,7988,0,
1843,7586,7989,0,
7611,0,7990,2,
7613,0,7991,2,
7612,0,7992,2,
7456,0,7993,2,
2926,7565,7994,0,
7214,7456,7995,1,
1500,7586,7996,0,
946,7586,7997,0,
7616,0,7998,2,
1840,7586,7999,0,
7618,0,8000,2,
2183,7565,8001,0,
1629,7586,8002,0,
1502,7580,8003,0,
7621,0,8004,2,
7622,0,8005,2,
7624,0,8006,2,
7623,0,8007,2,
1499,7586,8008,0,
1836,7580,8009,0,
7456,6519,8010,1,
1930,7565,8011,0,
1932,7586,8012,0,
2279,7580,8013,0,
7627,0,8014,2,
7628,0,8015,2,
7626,0,8016,2,
7629,0,8017,2,
7630,4677,8018,0,
2926,7580,8019,0,
7635,0,8020,2,
7634,0,8021,2,
7636,0,8022,2,
7632,0,8023,2,
7633,0,8024,2,
7637,0,8025,2,
7638,0,8026,2,
7639,0,8027,2,
1552,7586,8028,0,
7641,3379,8029,0,
7646,0,8030,2,
7644,0,8031,2,
7643,0,8032,2,
7645,0,8033,2,
7642,0,8034,2,
7647,0,8035,2,
2183,7580,8036,0,
2279,7586,8037,0,
7655,0,8038,2,
7659,0,8039,2,
7653,0,8040,2,
7651,0,8041,2,
7657,0,8042,2,
7658,0,8043,2,
7660,0,8044,2,
7661,0,8045,2,
7656,0,8046,2,
7662,0,8047,2,
7652,0,8048,2,
7654,0,8049,2,
7650,0,8050,2,
1930,7580,8051,0,
7666,0,8052,2,
7667,0,8053,2,
7668,0,8054,2,
7664,0,8055,2,
7669,0,8056,2,
7665,0,8057,2,
2926,7586,8058,0,
7671,0,8059,2,
7670,0,8060,2,
7672,0,8061,2,
7677,0,8062,2,
7679,0,8063,2,
7678,0,8064,2,
7675,0,8065,2,
7676,0,8066,2,
7674,0,8067,2,
7680,0,8068,2,
7681,0,8069,2,
7682,0,8070,2,
7686,0,8071,2,
7687,0,8072,2,
7685,0,8073,2,
7684,0,8074,2,
7683,0,8075,2,
7688,0,8076,2,
7690,0,8077,2,
7689,0,8078,2,
7691,0,8079,2,
7696,0,8080,2,
7692,0,8081,2,
7693,0,8082,2,
7694,0,8083,2,
7695,0,8084,2,
7697,0,8085,2,
7698,0,8086,2,
7700,0,8087,2,
7702,0,8088,2,
7701,0,8089,2,
7704,0,8090,2,
2183,7586,8091,0,
7705,0,8092,2,
7706,0,8093,2,
7709,0,8094,2,
7710,0,8095,2,
7708,0,8096,2,
7707,0,8097,2,
7714,0,8098,2,
7713,0,8099,2,
7711,0,8100,2,
1930,7586,8101,0,
7716,0,8102,2,
7715,0,8103,2,
7720,0,8104,2,
7722,0,8105,2,
7719,0,8106,2,
7723,0,8107,2,
7718,0,8108,2,
7721,0,8109,2,
7717,0,8110,2,
7724,0,8111,2,
7727,0,8112,2,
7726,0,8113,2,
7725,0,8114,2,
7402,7729,8115,1,
7731,7729,8116,1,
7730,7434,8117,1,
7729,0,8118,2,
7733,0,8119,2,
7732,0,8120,2,
7734,0,8121,2,
7729,7731,8122,0,
5821,7738,8123,0,
7736,0,8124,2,
7735,0,8125,2,
7737,0,8126,2,
7739,0,8127,2,
7740,0,8128,2,
7741,5559,8129,0,
7742,0,8130,2,
7746,0,8131,2,
7744,0,8132,2,
7747,0,8133,2,
7745,0,8134,2,
7748,0,8135,2,
7750,0,8136,2,
7749,0,8137,2,
7755,0,8138,2,
7753,0,8139,2,
7226,7466,8140,1,
7466,0,8141,2,
7754,0,8142,2,
7752,0,8143,2,
7756,0,8144,2,
7760,0,8145,2,
7761,0,8146,2,
7763,0,8147,2,
7762,0,8148,2,
7765,0,8149,2,
7766,0,8150,2,
7768,0,8151,2,
7769,0,8152,2,
7180,7774,8153,0,
1494,7580,8154,0,
7780,0,8155,2,
6970,7776,8156,0,
7779,0,8157,2,
7782,7781,8158,0,
7770,0,8159,2,
7771,7419,8160,0,
7790,0,8161,2,
7794,7429,8162,0,
1629,7565,8163,0,
1836,7586,8164,0,
7565,1500,8165,0,
7751,0,8166,2,
7791,0,8167,2,
7784,0,8168,2,
7783,0,8169,2,
7787,0,8170,2,
7786,0,8171,2,
7785,0,8172,2,
7793,0,8173,2,
7792,0,8174,2,
1629,7514,8175,0,
7808,7438,8176,0,
7811,0,8177,2,
7594,0,8178,2,
7462,6076,8179,0,
7434,7730,8180,0,
7802,0,8181,2,
7460,0,8182,2,
7776,7019,8183,1,
7795,7798,8184,0,
7814,0,8185,2,
7815,0,8186,2,
7818,0,8187,2,
7816,7451,8188,0,
7819,7451,8189,0,
7449,7817,8190,0,
6812,7821,8191,0,
8129,0,8192,2,
8128,8129,8193,1,
1013,7871,8194,1,
8141,7221,8195,1,
7828,0,8196,2,
7410,7828,8197,1,
7020,7831,8198,0,
8180,0,8199,2,
7945,0,8200,2,
8175,0,8201,2,
7830,7829,8202,0,
7837,0,8203,2,
7841,6839,8204,0,
7235,7844,8205,0,
7841,6839,8206,1,
1049,7842,8207,1,
7845,6846,8208,0,
7044,7846,8209,0,
7452,7819,8210,0,
7847,0,8211,2,
7848,6863,8212,0,
7850,6868,8213,0,
7816,0,8214,2,
7064,7851,8215,0,
7852,0,8216,2,
7853,6879,8217,0,
7859,3722,8218,0,
7860,7858,8219,0,
7078,7856,8220,0,
7863,0,8221,2,
7861,0,8222,2,
7862,0,8223,2,
7857,0,8224,2,
7498,7864,8225,0,
7502,7870,8226,0,
1037,7876,8227,1,
7507,7858,8228,0,
6826,7875,8229,1,
7873,0,8230,2,
7879,0,8231,2,
7880,7296,8232,1,
7881,0,8233,2,
7878,0,8234,2,
7860,0,8235,2,
7882,0,8236,2,
7883,0,8237,2,
7514,7826,8238,0,
7880,7514,8239,0,
7887,0,8240,2,
7884,7523,8241,0,
7886,0,8242,2,
7885,0,8243,2,
6723,7880,8244,0,
7892,7115,8245,0,
7891,0,8246,2,
7889,7888,8247,0,
7826,7834,8248,1,
7534,7894,8249,0,
7896,7538,8250,0,
7544,7897,8251,0,
7834,0,8252,2,
7901,7550,8253,0,
1499,7880,8254,0,
7900,7548,8255,0,
1548,7880,8256,0,
7556,7904,8257,0,
7823,7220,8258,1,
1552,7880,8259,0,
1549,7880,8260,0,
1932,7826,8261,0,
2279,7880,8262,0,
7906,0,8263,2,
7908,0,8264,2,
1549,7826,8265,0,
7909,0,8266,2,
7910,0,8267,2,
7823,7565,8268,0,
1502,7880,8269,0,
7568,7913,8270,0,
7915,0,8271,2,
7569,7914,8272,0,
7911,0,8273,2,
1424,7880,8274,0,
1843,7880,8275,0,
1548,7826,8276,0,
1843,7826,8277,0,
7918,0,8278,2,
7920,0,8279,2,
1548,7823,8280,0,
1552,7826,8281,0,
1499,7826,8282,0,
1500,7880,8283,0,
7922,0,8284,2,
1836,7880,8285,0,
1494,7880,8286,0,
946,7880,8287,0,
7927,0,8288,2,
2926,7880,8289,0,
7928,0,8290,2,
7925,0,8291,2,
7926,0,8292,2,
7919,7579,8293,0,
7930,0,8294,2,
1502,7826,8295,0,
1549,7823,8296,0,
7931,0,8297,2,
7933,0,8298,2,
1840,7880,8299,0,
1424,7826,8300,0,
946,7826,8301,0,
7934,0,8302,2,
7932,0,8303,2,
7935,0,8304,2,
7938,0,8305,2,
2279,7826,8306,0,
1932,7823,8307,0,
7936,0,8308,2,
1499,7823,8309,0,
2183,7880,8310,0,
1836,7826,8311,0,
7941,0,8312,2,
7939,0,8313,2,
1629,7880,8314,0,
1494,7826,8315,0,
7943,0,8316,2,
7942,0,8317,2,
1552,7823,8318,0,
1843,7823,8319,0,
1840,7826,8320,0,
1424,7823,8321,0,
7946,0,8322,2,
2926,7826,8323,0,
1930,7880,8324,0,
7947,0,8325,2,
7944,5158,8326,0,
7586,7945,8327,1,
7949,0,8328,2,
7951,0,8329,2,
7948,0,8330,2,
1502,7823,8331,0,
946,7823,8332,0,
1076,8176,8333,1,
1836,7823,8334,0,
8169,8168,8335,0,
7954,0,8336,2,
7955,0,8337,2,
1840,7823,8338,0,
7956,0,8339,2,
2279,7823,8340,0,
7951,7148,8341,0,
7958,0,8342,2,
2183,7826,8343,0,
7957,0,8344,2,
7966,0,8345,2,
7962,0,8346,2,
7960,0,8347,2,
7964,0,8348,2,
7963,0,8349,2,
7970,0,8350,2,
7968,0,8351,2,
7969,0,8352,2,
7971,0,8353,2,
7972,0,8354,2,
7976,0,8355,2,
7974,0,8356,2,
7973,0,8357,2,
7979,0,8358,2,
1930,7826,8359,0,
7982,7980,8360,0,
2926,7823,8361,0,
7984,0,8362,2,
7978,0,8363,2,
7985,0,8364,2,
7986,0,8365,2,
2183,7823,8366,0,
7988,0,8367,2,
7994,0,8368,2,
7996,0,8369,2,
7991,7992,8370,0,
7993,7601,8371,0,
7989,0,8372,2,
7999,0,8373,2,
1930,7823,8374,0,
7997,0,8375,2,
8003,0,8376,2,
8001,0,8377,2,
8002,0,8378,2,
8008,0,8379,2,
6755,7993,8380,0,
8009,0,8381,2,
8014,8016,8382,0,
8011,0,8383,2,
8019,0,8384,2,
8012,0,8385,2,
6757,8018,8386,0,
8013,0,8387,2,
8020,8021,8388,0,
8023,8024,8389,0,
8026,8025,8390,0,
8028,0,8391,2,
6758,8029,8392,0,
8032,8033,8393,0,
8036,0,8394,2,
8037,0,8395,2,
8031,8030,8396,0,
8048,8050,8397,0,
8044,8042,8398,0,
7159,8041,8399,0,
8047,8043,8400,0,
8054,8053,8401,0,
8058,0,8402,2,
8051,0,8403,2,
8055,8057,8404,0,
8059,8060,8405,0,
8066,8067,8406,0,
8064,8063,8407,0,
8069,8070,8408,0,
8076,8075,8409,0,
8072,8071,8410,0,
8084,8080,8411,0,
8078,8077,8412,0,
8082,8081,8413,0,
8091,0,8414,2,
8090,8093,8415,0,
8095,8094,8416,0,
8099,8100,8417,0,
8101,0,8418,2,
8109,8108,8419,0,
8106,8104,8420,0,
8114,8113,8421,0,
8115,0,8422,2,
7402,8118,8423,0,
8117,0,8424,2,
8122,0,8425,2,
8121,8119,8426,0,
8123,6606,8427,0,
8129,8128,8428,0,
8134,8133,8429,0,
1932,7880,8430,0,
8136,8135,8431,0,
7165,8141,8432,0,
8143,8142,8433,0,
1494,7823,8434,0,
1629,7826,8435,0,
8144,7759,8436,0,
8147,8146,8437,0,
8149,7773,8438,0,
7777,8151,8439,0,
7835,7464,8440,0,
8156,0,8441,2,
1629,7823,8442,0,
8154,0,8443,2,
8159,6987,8444,0,
7824,0,8445,2,
1500,7826,8446,0,
7833,0,8447,2,
1500,7823,8448,0,
7822,0,8449,2,
8171,8172,8450,0,
8164,0,8451,2,
8165,0,8452,2,
8163,0,8453,2,
8166,1929,8454,1,
7827,7216,8455,0,
7839,7838,8456,0,
8173,8174,8457,0,
8185,7201,8458,0,
8186,7450,8459,0,
7208,8186,8460,0,
8189,7452,8461,0,
8190,0,8462,2,
7016,8187,8463,0,
8188,0,8464,2,
1494,8252,8465,0,
8446,0,8466,2,
7019,8196,8467,0,
8192,6607,8468,1,
7828,8199,8469,0,
1502,8200,8470,0,
7436,8444,8471,0,
8191,6641,8472,0,
8204,0,8473,2,
8207,0,8474,2,
8205,0,8475,2,
1510,8206,8476,0,
7237,8208,8477,0,
1550,8206,8478,0,
1503,8206,8479,0,
7247,8211,8480,0,
7250,8211,8481,0,
1547,8206,8482,0,
7252,8213,8483,0,
7251,8212,8484,0,
8215,0,8485,2,
8215,7259,8486,0,
7265,8217,8487,0,
8216,7490,8488,0,
8220,7269,8489,0,
8333,8198,8490,1,
6706,8218,8491,0,
8219,0,8492,2,
8220,0,8493,2,
8225,0,8494,2,
8226,7864,8495,0,
8194,0,8496,2,
8227,0,8497,2,
8207,8209,8498,1,
8232,0,8499,2,
7519,8234,8500,0,
8238,0,8501,2,
8239,0,8502,2,
8244,0,8503,2,
8242,8243,8504,0,
8245,7533,8505,0,
8248,0,8506,2,
7826,8252,8507,0,
8252,7823,8508,0,
8252,7554,8509,1,
8254,0,8510,2,
8256,0,8511,2,
8258,0,8512,2,
8259,0,8513,2,
8260,0,8514,2,
1548,8252,8515,0,
8262,0,8516,2,
8261,0,8517,2,
8269,0,8518,2,
8268,0,8519,2,
8265,0,8520,2,
8276,0,8521,2,
8274,0,8522,2,
8275,0,8523,2,
1549,8252,8524,0,
8277,0,8525,2,
1932,8252,8526,0,
8280,0,8527,2,
8285,0,8528,2,
8286,0,8529,2,
8283,0,8530,2,
8281,0,8531,2,
8282,0,8532,2,
1499,8252,8533,0,
8287,0,8534,2,
1843,8252,8535,0,
8289,0,8536,2,
8295,0,8537,2,
1424,8252,8538,0,
8296,0,8539,2,
8303,8302,8540,0,
8300,0,8541,2,
8299,0,8542,2,
8301,0,8543,2,
1552,8252,8544,0,
1502,8252,8545,0,
8306,0,8546,2,
8307,0,8547,2,
8309,0,8548,2,
8311,0,8549,2,
8310,0,8550,2,
8315,0,8551,2,
8298,8313,8552,0,
2279,8252,8553,0,
8314,0,8554,2,
946,8252,8555,0,
8318,0,8556,2,
8319,0,8557,2,
8323,0,8558,2,
7950,8325,8559,0,
8324,0,8560,2,
8326,5162,8561,0,
8327,0,8562,2,
8320,0,8563,2,
8321,0,8564,2,
1836,8252,8565,0,
7586,8200,8566,0,
1840,8252,8567,0,
8197,0,8568,2,
7593,8330,8569,0,
8331,0,8570,2,
8332,0,8571,2,
8334,0,8572,2,
8338,0,8573,2,
7959,8339,8574,0,
8340,0,8575,2,
2926,8252,8576,0,
8200,7149,8577,1,
8343,0,8578,2,
7961,8342,8579,0,
7965,8344,8580,0,
8347,7967,8581,0,
8349,7599,8582,0,
8200,7215,8583,0,
7606,8350,8584,0,
8354,7608,8585,0,
8352,7977,8586,0,
7609,8355,8587,0,
8357,7983,8588,0,
2183,8252,8589,0,
1548,8200,8590,0,
8364,7987,8591,0,
1930,8252,8592,0,
8363,7614,8593,0,
1549,8200,8594,0,
8359,0,8595,2,
1494,8200,8596,0,
8361,0,8597,2,
1424,8200,8598,0,
8366,0,8599,2,
946,8200,8600,0,
7615,8365,8601,0,
8371,0,8602,2,
1500,8200,8603,0,
8374,0,8604,2,
8005,8377,8605,0,
7625,8376,8606,0,
8379,7631,8607,0,
1843,8200,8608,0,
1629,8200,8609,0,
8380,0,8610,2,
1840,8200,8611,0,
8384,8022,8612,0,
8385,7640,8613,0,
1932,8200,8614,0,
1552,8200,8615,0,
8392,5191,8616,0,
7663,8394,8617,0,
2279,8200,8618,0,
8386,0,8619,2,
8402,7673,8620,0,
1930,8200,8621,0,
2926,8200,8622,0,
2183,8200,8623,0,
8423,0,8624,2,
8427,0,8625,2,
8128,8427,8626,0,
8428,0,8627,2,
6607,8192,8628,0,
6021,8193,8629,0,
8430,0,8630,2,
8432,0,8631,2,
1500,8252,8632,0,
2274,8206,8633,0,
8435,0,8634,2,
8434,0,8635,2,
8196,8180,8636,1,
2924,8206,8637,0,
1499,8200,8638,0,
1629,8252,8639,0,
8448,0,8640,2,
8333,0,8641,2,
8181,8452,8642,0,
8442,0,8643,2,
1293,8440,8644,1,
1836,8200,8645,0,
8443,8170,8646,0,
8458,0,8647,2,
8460,7817,8648,0,
8459,7817,8649,0,
7211,8464,8650,0,
8463,0,8651,2,
8461,8462,8652,0,
8465,0,8653,2,
8467,0,8654,2,
8198,8641,8655,0,
8636,0,8656,2,
8469,0,8657,2,
8646,8453,8658,0,
8470,0,8659,2,
8639,0,8660,2,
8629,8468,8661,0,
8472,6643,8662,0,
8460,0,8663,2,
6847,8473,8664,0,
8476,0,8665,2,
8209,8474,8666,0,
8475,7241,8667,0,
1049,8477,8668,1,
8479,0,8669,2,
8478,0,8670,2,
8481,0,8671,2,
1034,8483,8672,1,
8482,0,8673,2,
1013,8484,8674,1,
8486,0,8675,2,
8485,7021,8676,0,
8488,7493,8677,0,
1037,8487,8678,1,
7820,8464,8679,0,
8475,7241,8680,1,
8489,0,8681,2,
7867,8492,8682,0,
7262,8491,8683,1,
7868,8492,8684,0,
8493,7025,8685,0,
8490,0,8686,2,
8491,0,8687,2,
8494,7504,8688,0,
7512,8491,8689,1,
8495,7511,8690,0,
8500,0,8691,2,
8499,8237,8692,0,
8498,0,8693,2,
8502,8501,8694,0,
8504,0,8695,2,
8508,0,8696,2,
8507,0,8697,2,
8510,7123,8698,0,
8511,7124,8699,0,
8263,8513,8700,0,
8509,0,8701,2,
8517,8267,8702,0,
8264,8514,8703,0,
8515,0,8704,2,
8271,8518,8705,0,
8524,0,8706,2,
8521,8279,8707,0,
8522,7133,8708,0,
8526,0,8709,2,
8532,8291,8710,0,
8529,7136,8711,0,
8288,8530,8712,0,
8536,7140,8713,0,
8533,0,8714,2,
8294,8534,8715,0,
8535,0,8716,2,
8304,8539,8717,0,
8538,0,8718,2,
8540,0,8719,2,
8541,8305,8720,0,
8544,0,8721,2,
8545,0,8722,2,
8312,8550,8723,0,
8553,0,8724,2,
8551,8316,8725,0,
8322,8556,8726,0,
8555,0,8727,2,
8561,0,8728,2,
8558,8328,8729,0,
7145,8561,8730,1,
8565,0,8731,2,
8567,0,8732,2,
8566,0,8733,2,
8336,8570,8734,0,
8337,8571,8735,0,
8552,7940,8736,0,
8576,0,8737,2,
8577,0,8738,2,
8561,7214,8739,1,
8583,0,8740,2,
8589,0,8741,2,
8590,0,8742,2,
8592,0,8743,2,
8596,0,8744,2,
8594,0,8745,2,
8600,0,8746,2,
8598,0,8747,2,
8368,8599,8748,0,
8603,0,8749,2,
8608,0,8750,2,
8609,0,8751,2,
8611,0,8752,2,
8614,0,8753,2,
8615,0,8754,2,
8616,0,8755,2,
8618,0,8756,2,
8621,0,8757,2,
8622,0,8758,2,
8623,0,8759,2,
7740,8625,8760,0,
8626,0,8761,2,
8428,8468,8762,0,
8628,0,8763,2,
8625,7740,8764,1,
8193,8468,8765,0,
8630,7171,8766,0,
8633,0,8767,2,
8632,0,8768,2,
8471,0,8769,2,
6795,8644,8770,0,
8637,0,8771,2,
8638,0,8772,2,
8449,8640,8773,0,
8644,6795,8774,1,
8642,8643,8775,0,
8645,0,8776,2,
7013,8647,8777,0,
7453,8649,8778,0,
8648,0,8779,2,
8650,7820,8780,0,
8774,8655,8781,0,
8772,8447,8782,0,
8456,8776,8783,0,
7843,8663,8784,0,
7453,8651,8785,0,
8664,0,8786,2,
8649,0,8787,2,
7048,8664,8788,1,
8665,7052,8789,0,
8667,0,8790,2,
7051,8666,8791,1,
8668,0,8792,2,
8666,7254,8793,0,
8670,7065,8794,0,
8669,7067,8795,0,
8671,7854,8796,0,
8672,0,8797,2,
8673,7076,8798,0,
8674,0,8799,2,
8676,0,8800,2,
8674,8675,8801,0,
8678,0,8802,2,
8678,8681,8803,0,
8682,0,8804,2,
8683,0,8805,2,
8685,0,8806,2,
8655,8774,8807,1,
8688,0,8808,2,
7262,8687,8809,0,
8689,0,8810,2,
7512,8687,8811,0,
8691,8240,8812,0,
8692,0,8813,2,
8694,8503,8814,0,
8695,7545,8815,0,
8509,8696,8816,0,
8697,8696,8817,0,
8704,8520,8818,0,
8527,8706,8819,0,
8709,8531,8820,0,
8714,8537,8821,0,
8718,8543,8822,0,
8719,7940,8823,0,
8547,8721,8824,0,
8548,8722,8825,0,
8564,8727,8826,0,
7362,8728,8827,0,
8736,8562,8828,0,
8737,8578,8829,0,
8728,7601,8830,0,
8597,8741,8831,0,
8742,8367,8832,0,
7998,8745,8833,0,
8744,8369,8834,0,
8000,8746,8835,0,
8747,8375,8836,0,
8007,8749,8837,0,
8753,8391,8838,0,
8039,8754,8839,0,
8755,8386,8840,1,
8386,8755,8841,0,
8758,8414,8842,0,
8102,8759,8843,0,
8760,0,8844,2,
8193,8761,8845,0,
8762,0,8846,2,
8764,8193,8847,0,
8635,8768,8848,0,
8767,7177,8849,0,
7440,8771,8850,0,
8653,8466,8851,0,
8770,0,8852,2,
7836,8659,8853,0,
8179,8661,8854,0,
8661,7465,8855,0,
8777,0,8856,2,
8652,8779,8857,0,
8778,8651,8858,0,
8780,0,8859,2,
8781,0,8860,2,
8850,0,8861,2,
8853,8451,8862,0,
8854,345,8863,0,
8784,0,8864,2,
8785,0,8865,2,
7477,8786,8866,0,
1510,8788,8867,0,
8210,8787,8868,0,
8789,7062,8869,0,
8791,0,8870,2,
7240,8786,8871,0,
7849,8790,8872,0,
1503,8788,8873,0,
8793,0,8874,2,
7072,8794,8875,0,
7073,8795,8876,0,
1550,8788,8877,0,
7081,8798,8878,0,
7259,8799,8879,0,
8797,7079,8880,0,
8801,0,8881,2,
8802,7269,8882,0,
8797,7091,8883,0,
1547,8788,8884,0,
8803,0,8885,2,
8804,8805,8886,0,
8809,0,8887,2,
8808,7511,8888,0,
8810,8231,8889,0,
8811,0,8890,2,
8694,8813,8891,0,
8668,8791,8892,1,
8812,8246,8893,0,
8815,0,8894,2,
8816,0,8895,2,
8823,0,8896,2,
8827,0,8897,2,
8830,0,8898,2,
8828,8738,8899,0,
8841,0,8900,2,
8845,8468,8901,0,
8844,8627,8902,0,
8846,8763,8903,0,
2274,8788,8904,0,
2924,8788,8905,0,
7187,8849,8906,0,
8649,8856,8907,0,
8858,0,8908,2,
8191,8859,8909,0,
8852,8860,8910,0,
8472,8859,8911,0,
8864,7817,8912,0,
8777,8865,8913,0,
8867,0,8914,2,
8866,0,8915,2,
8871,0,8916,2,
8792,8870,8917,0,
1013,8869,8918,1,
8480,8872,8919,0,
8873,0,8920,2,
1034,8875,8921,1,
1049,8876,8922,1,
8872,0,8923,2,
1037,8878,8924,1,
8879,0,8925,2,
8877,0,8926,2,
6715,8880,8927,0,
8884,0,8928,2,
8883,0,8929,2,
8882,0,8930,2,
8885,8806,8931,0,
8888,0,8932,2,
8890,8236,8933,0,
8893,7545,8934,0,
8891,0,8935,2,
8894,7903,8936,0,
8895,8512,8937,0,
8896,8317,8938,0,
8904,0,8939,2,
8902,8763,8940,0,
8905,0,8941,2,
1076,8906,8942,1,
8907,0,8943,2,
8909,0,8944,2,
8910,0,8945,2,
8911,0,8946,2,
8912,0,8947,2,
8913,0,8948,2,
7482,8915,8949,0,
8914,6876,8950,0,
8919,0,8951,2,
8917,0,8952,2,
8916,7243,8953,0,
8918,0,8954,2,
7855,8915,8955,0,
8920,6885,8956,0,
7861,8922,8957,1,
8921,0,8958,2,
8922,0,8959,2,
7499,8923,8960,0,
7869,8926,8961,0,
8927,0,8962,2,
8924,0,8963,2,
8923,7267,8964,0,
8921,7862,8965,0,
8928,6909,8966,0,
8923,7267,8967,1,
8932,8233,8968,0,
8933,8234,8969,0,
8935,8506,8970,0,
8938,0,8971,2,
8939,6977,8972,0,
8941,6991,8973,0,
8942,7227,8974,1,
8942,0,8975,2,
8857,8943,8976,0,
8944,7213,8977,0,
8945,8974,8978,0,
7806,8973,8979,0,
8975,7809,8980,0,
7840,8946,8981,0,
8868,8947,8982,0,
8210,8947,8983,0,
8649,8948,8984,0,
8949,0,8985,2,
8947,7452,8986,0,
8950,7488,8987,0,
8874,8952,8988,0,
7857,8954,8989,1,
7047,8953,8990,1,
8796,8951,8991,0,
8956,7494,8992,0,
8955,0,8993,2,
8222,8959,8994,0,
8223,8958,8995,0,
8960,0,8996,2,
8224,8954,8997,0,
8910,8974,8998,1,
8964,0,8999,2,
1034,8961,9000,1,
7873,8963,9001,1,
7510,8966,9002,0,
8965,0,9003,2,
8230,8963,9004,0,
8971,8562,9005,0,
7789,8972,9006,0,
8976,8908,9007,0,
1076,9006,9008,1,
8978,0,9009,2,
8980,0,9010,2,
8985,7489,9011,1,
8981,0,9012,2,
8982,0,9013,2,
8913,8983,9014,0,
8984,0,9015,2,
1013,8987,9016,1,
8991,0,9017,2,
8988,0,9018,2,
8989,0,9019,2,
1510,8990,9020,0,
1049,8992,9021,1,
8677,8993,9022,0,
8994,0,9023,2,
1503,8990,9024,0,
8995,0,9025,2,
8985,7489,9026,0,
8996,7247,9027,0,
9000,8220,9028,1,
8488,8993,9029,0,
1550,8990,9030,0,
9001,0,9031,2,
9000,8930,9032,0,
8998,0,9033,2,
8999,7874,9034,0,
1547,8990,9035,0,
1037,9002,9036,1,
9004,0,9037,2,
9000,0,9038,2,
8997,0,9039,2,
9005,0,9040,2,
2274,8990,9041,0,
2924,8990,9042,0,
8979,0,9043,2,
9007,8191,9044,0,
9010,9009,9045,0,
8220,9038,9046,0,
9012,6643,9047,0,
8662,9007,9048,0,
9007,0,9049,2,
9014,0,9050,2,
9013,8214,9051,0,
8986,9015,9052,0,
9016,0,9053,2,
1510,9011,9054,0,
9019,8800,9055,0,
9020,0,9056,2,
8957,9018,9057,0,
8221,9017,9058,0,
8472,9007,9059,0,
9022,0,9060,2,
9021,0,9061,2,
9021,8925,9062,0,
9024,0,9063,2,
8962,9025,9064,0,
9026,0,9065,2,
9027,8211,9066,0,
7045,9034,9067,1,
9030,0,9068,2,
9028,0,9069,2,
9032,0,9070,2,
8931,9031,9071,0,
9029,0,9072,2,
1503,9011,9073,0,
1547,9011,9074,0,
9035,0,9075,2,
9036,0,9076,2,
9028,8227,9077,0,
1550,9011,9078,0,
9018,8957,9079,1,
9008,7824,9080,1,
9040,8733,9081,0,
2924,9011,9082,0,
9041,0,9083,2,
9042,0,9084,2,
2274,9011,9085,0,
9008,0,9086,2,
9044,0,9087,2,
8679,9049,9088,0,
9045,9080,9089,1,
8485,9061,9090,1,
9086,8445,9091,0,
8215,9061,9092,0,
9045,0,9093,2,
9047,0,9094,2,
9048,0,9095,2,
8780,9049,9096,0,
9051,9050,9097,0,
7446,9052,9098,1,
8490,9053,9099,1,
9054,0,9100,2,
9055,8881,9101,0,
9057,0,9102,2,
9056,6897,9103,0,
9059,0,9104,2,
8684,9058,9105,0,
8226,9060,9106,0,
9062,0,9107,2,
8686,9053,9108,0,
9064,8929,9109,0,
9058,0,9110,2,
9063,6906,9111,0,
7481,9066,9112,1,
9065,7483,9113,0,
8690,9060,9114,0,
9046,7025,9115,1,
9071,9070,9116,0,
8495,9060,9117,0,
9068,6910,9118,0,
9072,7502,9119,0,
8497,9069,9120,0,
9073,0,9121,2,
9074,0,9122,2,
9075,6914,9123,0,
8498,9076,9124,1,
9077,0,9125,2,
9078,0,9126,2,
9046,7269,9127,0,
8693,9076,9128,0,
9079,0,9129,2,
9081,0,9130,2,
9082,0,9131,2,
9084,6988,9132,0,
8160,9083,9133,0,
9085,0,9134,2,
8977,9087,9135,0,
9088,7015,9136,1,
9093,9080,9137,0,
1076,9133,9138,1,
9094,6823,9139,0,
9096,0,9140,2,
7206,9097,9141,1,
9098,0,9142,2,
9099,0,9143,2,
9100,7279,9144,0,
9098,6647,9145,0,
9098,6653,9146,0,
9023,9102,9147,0,
9105,0,9148,2,
8981,9104,9149,0,
9103,7506,9150,0,
9106,0,9151,2,
9108,0,9152,2,
9090,8194,9153,1,
9090,0,9154,2,
8228,9110,9155,0,
7513,9111,9156,0,
9109,0,9157,2,
9092,7021,9158,1,
9110,7507,9159,0,
7260,9113,9160,1,
7516,9118,9161,0,
9120,0,9162,2,
9115,0,9163,2,
9116,0,9164,2,
9114,0,9165,2,
7263,9119,9166,1,
9117,0,9167,2,
9121,7310,9168,0,
9092,7259,9169,0,
9115,8802,9170,1,
9101,9107,9171,0,
9122,7318,9172,0,
9124,0,9173,2,
7530,9123,9174,0,
9110,7507,9175,1,
9127,0,9176,2,
9126,7327,9177,0,
9128,0,9178,2,
9089,0,9179,2,
9130,8738,9180,0,
9131,7430,9181,0,
9134,8455,9182,0,
9091,0,9183,2,
7797,9132,9184,0,
6517,9135,9185,1,
9136,0,9186,2,
9137,0,9187,2,
1293,9182,9188,1,
9138,8471,9189,1,
9139,9095,9190,0,
9140,7821,9191,0,
9141,0,9192,2,
9142,7236,9193,0,
9101,9143,9194,0,
9144,7872,9195,0,
9146,9141,9196,0,
8997,9143,9197,0,
8886,9148,9198,0,
1013,9150,9199,1,
6528,9149,9200,1,
9147,0,9201,2,
9151,7877,9202,0,
9154,8496,9203,0,
9155,0,9204,2,
9158,8674,9205,1,
1049,9156,9206,1,
9157,9003,9207,0,
9159,0,9208,2,
1510,9160,9209,0,
1503,9160,9210,0,
9158,0,9211,2,
9151,7877,9212,1,
1503,9166,9213,0,
8688,9167,9214,0,
1034,9161,9215,1,
8968,9165,9216,0,
9037,9164,9217,0,
9163,8802,9218,0,
1547,9160,9219,0,
9170,0,9220,2,
1547,9166,9221,0,
7890,9168,9222,0,
9169,0,9223,2,
9171,0,9224,2,
1550,9166,9225,0,
7893,9172,9226,0,
1037,9174,9227,1,
1510,9166,9228,0,
1550,9160,9229,0,
7898,9177,9230,0,
9141,9098,9231,0,
9184,0,9232,2,
2924,9160,9233,0,
9180,0,9234,2,
2924,9166,9235,0,
2274,9166,9236,0,
2274,9160,9237,0,
9138,0,9238,2,
8162,9181,9239,0,
9200,0,9240,2,
9191,6812,9241,1,
9183,9187,9242,0,
9188,8850,9243,1,
9233,0,9244,2,
9190,0,9245,2,
6262,9190,9246,1,
7271,9191,9247,1,
9141,9186,9248,1,
9192,9186,9249,0,
9197,0,9250,2,
9196,0,9251,2,
1013,9195,9252,1,
9194,9107,9253,0,
9199,8807,9254,1,
9198,0,9255,2,
9153,9201,9256,0,
9202,0,9257,2,
9203,0,9258,2,
9207,0,9259,2,
9204,7868,9260,0,
9206,9205,9261,1,
9199,0,9262,2,
9211,8799,9263,0,
9206,0,9264,2,
9209,0,9265,2,
1503,9212,9266,0,
9210,0,9267,2,
9208,8235,9268,0,
9215,0,9269,2,
1547,9212,9270,0,
9214,0,9271,2,
9216,0,9272,2,
9218,0,9273,2,
9213,0,9274,2,
9217,0,9275,2,
9219,0,9276,2,
9224,9039,9277,0,
1049,9222,9278,1,
9221,0,9279,2,
9225,0,9280,2,
9228,0,9281,2,
9227,0,9282,2,
9227,8892,9283,1,
1037,9226,9284,1,
9229,0,9285,2,
1510,9212,9286,0,
1034,9230,9287,1,
9170,9215,9288,0,
9201,9153,9289,1,
2924,9212,9290,0,
1550,9212,9291,0,
9217,9124,9292,1,
9098,9186,9293,0,
9231,6647,9294,0,
9231,6655,9295,0,
9186,7584,9296,0,
9231,7236,9297,0,
9231,6842,9298,0,
8341,9186,9299,0,
8329,9186,9300,1,
7951,9186,9301,0,
9231,7484,9302,0,
9231,6673,9303,0,
9234,8740,9304,0,
9231,7253,9305,0,
9231,7262,9306,0,
9231,8687,9307,0,
9231,7512,9308,0,
9231,7293,9309,0,
9231,7508,9310,0,
9231,7518,9311,0,
9231,6912,9312,0,
9231,7562,9313,0,
9231,6734,9314,0,
9231,7331,9315,0,
9231,7357,9316,0,
9231,7362,9317,0,
9231,7601,9318,0,
9231,7993,9319,0,
9231,8728,9320,0,
9231,6755,9321,0,
9231,7159,9322,0,
9231,8041,9323,0,
9235,0,9324,2,
2274,9212,9325,0,
9236,0,9326,2,
9237,0,9327,2,
9239,0,9328,2,
9188,8861,9329,0,
9238,8769,9330,0,
9188,0,9331,2,
9185,9240,9332,1,
9241,9186,9333,1,
9241,0,9334,2,
9284,9129,9335,1,
9242,0,9336,2,
9329,0,9337,2,
9330,0,9338,2,
9331,8850,9339,0,
6406,9245,9340,0,
6262,9245,9341,0,
9246,0,9342,2,
9246,9240,9343,1,
9247,9088,9344,1,
9248,0,9345,2,
9248,9142,9346,0,
9145,9249,9347,0,
9253,0,9348,2,
9252,9033,9349,1,
9152,9250,9350,0,
9256,0,9351,2,
9254,0,9352,2,
8887,9255,9353,0,
9252,0,9354,2,
9257,7864,9355,0,
9261,0,9356,2,
9262,8807,9357,0,
9259,9162,9358,0,
9260,8492,9359,0,
9266,0,9360,2,
7486,9268,9361,1,
9265,7312,9362,0,
9263,0,9363,2,
9264,9205,9364,0,
8241,9267,9365,0,
9269,9220,9366,0,
9273,9001,9367,0,
9271,7511,9368,0,
8503,9272,9369,0,
9173,9275,9370,0,
8247,9274,9371,0,
9270,0,9372,2,
9279,7542,9373,0,
9276,7328,9374,0,
8814,9272,9375,0,
9278,0,9376,2,
9099,9277,9377,1,
9282,8892,9378,0,
9283,0,9379,2,
9280,7547,9380,0,
9284,0,9381,2,
9281,7551,9382,0,
9189,9242,9383,1,
9286,0,9384,2,
9288,0,9385,2,
9285,7337,9386,0,
9287,0,9387,2,
9291,0,9388,2,
9290,0,9389,2,
9292,0,9390,2,
9293,9192,9391,0,
9295,0,9392,2,
9294,0,9393,2,
9296,6942,9394,0,
9297,0,9395,2,
9298,0,9396,2,
9301,0,9397,2,
9303,0,9398,2,
9299,0,9399,2,
9302,0,9400,2,
9304,0,9401,2,
9305,0,9402,2,
7155,9240,9403,1,
9306,0,9404,2,
9240,7155,9405,0,
9307,0,9406,2,
9308,0,9407,2,
9309,0,9408,2,
9310,0,9409,2,
9311,0,9410,2,
9312,0,9411,2,
9315,0,9412,2,
9313,0,9413,2,
9314,0,9414,2,
9316,0,9415,2,
9317,0,9416,2,
9318,0,9417,2,
9321,0,9418,2,
9320,0,9419,2,
9319,0,9420,2,
9322,0,9421,2,
9323,0,9422,2,
9324,7758,9423,0,
9325,0,9424,2,
9326,7778,9425,0,
9327,7423,9426,0,
9244,7224,9427,0,
9332,0,9428,2,
9185,9334,9429,1,
9333,0,9430,2,
8436,9423,9431,0,
8184,9427,9432,0,
9189,9336,9433,0,
9340,0,9434,2,
9341,0,9435,2,
9343,0,9436,2,
9332,9333,9437,0,
9343,6712,9438,0,
9346,8680,9439,0,
9344,6712,9440,0,
9333,6832,9441,0,
9193,9345,9442,0,
9347,0,9443,2,
9349,0,9444,2,
9350,9348,9445,0,
9258,9351,9446,0,
9353,0,9447,2,
9354,9033,9448,0,
7281,9355,9449,1,
9358,0,9450,2,
8683,9359,9451,1,
9360,7532,9452,0,
9223,9363,9453,0,
1049,9365,9454,1,
9364,0,9455,2,
7895,9362,9456,0,
9366,0,9457,2,
7881,9368,9458,1,
9367,9176,9459,0,
9357,0,9460,2,
9372,7543,9461,0,
1049,9371,9462,1,
9369,0,9463,2,
9370,0,9464,2,
9375,0,9465,2,
7899,9374,9466,0,
8250,9373,9467,0,
8253,9382,9468,0,
9381,9079,9469,0,
8689,9353,9470,1,
8255,9380,9471,0,
9378,9335,9472,0,
9379,9335,9473,0,
9383,0,9474,2,
7905,9386,9475,0,
9384,7557,9476,0,
9388,7567,9477,0,
9389,7570,9478,0,
9345,9142,9479,0,
9346,8229,9480,0,
9391,6655,9481,0,
9391,6832,9482,0,
9346,7284,9483,0,
9344,6712,9484,0,
9346,8967,9485,0,
9391,6653,9486,0,
9391,7236,9487,0,
9346,9067,9488,0,
9391,6673,9489,0,
9346,9175,9490,0,
9391,6842,9491,0,
9397,7365,9492,0,
9346,9112,9493,0,
9346,9361,9494,0,
8360,9401,9495,0,
9391,7484,9496,0,
9391,7253,9497,0,
9405,0,9498,2,
9391,7262,9499,0,
9391,8687,9500,0,
9391,7512,9501,0,
8386,9405,9502,0,
9391,7293,9503,0,
9391,7508,9504,0,
9391,8041,9505,0,
9391,7518,9506,0,
9391,7562,9507,0,
9391,6912,9508,0,
9391,7331,9509,0,
9391,6734,9510,0,
9391,7357,9511,0,
9391,8728,9512,0,
9391,7362,9513,0,
9391,7601,9514,0,
9391,7993,9515,0,
9391,6755,9516,0,
9391,7159,9517,0,
9424,7772,9518,0,
9378,0,9519,2,
8438,9425,9520,0,
8158,9426,9521,0,
9338,9337,9522,0,
9339,0,9523,2,
9428,9333,9524,0,
9429,0,9525,2,
1013,9456,9526,1,
9432,0,9527,2,
1076,9520,9528,1,
9433,0,9529,2,
1076,9521,9530,1,
8272,9478,9531,0,
6660,9434,9532,0,
9435,6430,9533,0,
9428,9429,9534,0,
6832,9430,9535,0,
9437,6647,9536,0,
9428,9430,9537,0,
9438,0,9538,2,
9440,0,9539,2,
9441,9332,9540,0,
9439,0,9541,2,
9442,0,9542,2,
9437,6653,9543,0,
9352,9444,9544,0,
9445,0,9545,2,
9446,0,9546,2,
8889,9447,9547,0,
1503,9449,9548,0,
9448,0,9549,2,
9357,9444,9550,0,
9437,6842,9551,0,
9437,7236,9552,0,
9254,9445,9553,1,
9450,9125,9554,0,
8810,9447,9555,0,
8989,9453,9556,1,
8249,9452,9557,0,
9454,0,9558,2,
1503,9458,9559,0,
9178,9464,9560,0,
8251,9461,9561,0,
9459,0,9562,2,
9463,8499,9563,0,
9462,0,9564,2,
9437,6673,9565,0,
1037,9467,9566,1,
1037,9466,9567,1,
8970,9465,9568,0,
8692,9463,9569,0,
1547,9458,9570,0,
9463,8499,9571,1,
1013,9468,9572,1,
9469,0,9573,2,
1034,9471,9574,1,
9472,0,9575,2,
1547,9449,9576,0,
8257,9476,9577,0,
1034,9475,9578,1,
2924,9449,9579,0,
1510,9449,9580,0,
9437,7484,9581,0,
9437,7253,9582,0,
1550,9449,9583,0,
8270,9477,9584,0,
1550,9458,9585,0,
1510,9458,9586,0,
9479,6653,9587,0,
2924,9458,9588,0,
9479,6647,9589,0,
9437,7262,9590,0,
9200,9484,9591,1,
9483,0,9592,2,
9482,0,9593,2,
9481,0,9594,2,
9480,0,9595,2,
9437,6655,9596,0,
9437,8687,9597,0,
9479,6842,9598,0,
9486,0,9599,2,
9485,0,9600,2,
9437,7512,9601,0,
9437,7293,9602,0,
9437,7508,9603,0,
9479,6673,9604,0,
9487,0,9605,2,
9488,0,9606,2,
9437,7331,9607,0,
9437,7518,9608,0,
9437,7562,9609,0,
9479,7253,9610,0,
9479,7484,9611,0,
9492,0,9612,2,
9491,0,9613,2,
9490,0,9614,2,
9493,0,9615,2,
9489,0,9616,2,
9437,6734,9617,0,
9437,6912,9618,0,
9479,7262,9619,0,
9494,0,9620,2,
9495,0,9621,2,
9496,0,9622,2,
9437,7357,9623,0,
9437,7362,9624,0,
9479,8687,9625,0,
9346,9451,9626,0,
9497,0,9627,2,
9498,8386,9628,1,
9479,7512,9629,0,
9346,9470,9630,0,
9437,8728,9631,0,
9479,7293,9632,0,
9499,0,9633,2,
9500,0,9634,2,
9437,7601,9635,0,
9479,7508,9636,0,
9501,0,9637,2,
9502,0,9638,2,
9437,7159,9639,0,
9437,8041,9640,0,
9437,7993,9641,0,
9479,7518,9642,0,
9479,6912,9643,0,
9503,0,9644,2,
9504,0,9645,2,
9505,0,9646,2,
9437,6755,9647,0,
9479,7331,9648,0,
9506,0,9649,2,
9479,7357,9650,0,
9479,7562,9651,0,
9479,6734,9652,0,
9509,0,9653,2,
9507,0,9654,2,
9508,0,9655,2,
9479,7362,9656,0,
9510,0,9657,2,
9479,8728,9658,0,
9511,0,9659,2,
9479,7993,9660,0,
9479,7601,9661,0,
9479,6755,9662,0,
9479,7159,9663,0,
9515,0,9664,2,
9513,0,9665,2,
9514,0,9666,2,
9512,0,9667,2,
9479,8041,9668,0,
9516,0,9669,2,
2274,9458,9670,0,
9517,0,9671,2,
2274,9449,9672,0,
9431,0,9673,2,
8439,9518,9674,0,
9525,9430,9675,0,
9522,9529,9676,0,
1076,9674,9677,1,
9612,9399,9678,0,
9530,8979,9679,1,
9529,9338,9680,0,
9528,9184,9681,1,
9532,0,9682,2,
5910,9533,9683,1,
9524,7284,9684,0,
9534,9535,9685,0,
6113,9532,9686,1,
9537,9429,9687,0,
9524,6891,9688,0,
9536,0,9689,2,
9251,9541,9690,0,
9542,9443,9691,0,
9539,9200,9692,0,
9524,8229,9693,0,
9540,0,9694,2,
9543,0,9695,2,
9544,9545,9696,0,
9547,0,9697,2,
9546,9356,9698,0,
9524,8967,9699,0,
9524,8680,9700,0,
9352,9545,9701,0,
9548,0,9702,2,
9550,0,9703,2,
9551,0,9704,2,
9554,0,9705,2,
9553,0,9706,2,
9555,0,9707,2,
9552,0,9708,2,
9089,9526,9709,1,
9556,9376,9710,0,
9377,9558,9711,1,
1049,9557,9712,1,
9526,0,9713,2,
9556,9376,9714,1,
9377,9558,9715,0,
9563,0,9716,2,
9560,0,9717,2,
1037,9561,9718,1,
9524,9067,9719,0,
9562,9164,9720,0,
9559,0,9721,2,
9568,0,9722,2,
9569,0,9723,2,
9566,0,9724,2,
9546,9356,9725,1,
9567,0,9726,2,
9570,0,9727,2,
9565,0,9728,2,
9564,9553,9729,0,
9572,9474,9730,1,
9575,9573,9731,0,
2274,9571,9732,0,
9574,0,9733,2,
9283,9560,9734,1,
9576,0,9735,2,
1547,9571,9736,0,
9572,0,9737,2,
9578,0,9738,2,
1013,9577,9739,1,
1503,9571,9740,0,
9579,0,9741,2,
9524,9112,9742,0,
9524,9175,9743,0,
9582,0,9744,2,
9581,0,9745,2,
9580,0,9746,2,
9585,0,9747,2,
9531,0,9748,2,
9583,0,9749,2,
1034,9584,9750,1,
1510,9571,9751,0,
9586,0,9752,2,
1550,9571,9753,0,
9524,9361,9754,0,
9588,0,9755,2,
9589,0,9756,2,
9587,0,9757,2,
9524,9451,9758,0,
9590,0,9759,2,
9524,7273,9760,0,
9591,9200,9761,0,
9593,9392,9762,0,
9594,9393,9763,0,
9597,0,9764,2,
9596,0,9765,2,
9591,9200,9766,0,
2924,9571,9767,0,
9200,9591,9768,1,
9598,0,9769,2,
9599,9395,9770,0,
9524,9470,9771,0,
9528,0,9772,2,
9602,0,9773,2,
9601,0,9774,2,
9603,0,9775,2,
9604,0,9776,2,
9605,9396,9777,0,
9609,0,9778,2,
9607,0,9779,2,
9608,0,9780,2,
9611,0,9781,2,
9610,0,9782,2,
9613,9398,9783,0,
9616,9400,9784,0,
9617,0,9785,2,
9618,0,9786,2,
9619,0,9787,2,
9622,9402,9788,0,
8370,9621,9789,0,
9623,0,9790,2,
9624,0,9791,2,
9626,0,9792,2,
9625,0,9793,2,
9627,9404,9794,0,
9631,0,9795,2,
9630,0,9796,2,
9629,0,9797,2,
9633,9406,9798,0,
9632,0,9799,2,
9628,0,9800,2,
9634,9407,9801,0,
9636,0,9802,2,
9635,0,9803,2,
9637,9408,9804,0,
9640,0,9805,2,
9639,0,9806,2,
9641,0,9807,2,
9642,0,9808,2,
9644,9409,9809,0,
9643,0,9810,2,
9645,9410,9811,0,
9647,0,9812,2,
9648,0,9813,2,
9649,9411,9814,0,
9650,0,9815,2,
9652,0,9816,2,
9651,0,9817,2,
9653,9413,9818,0,
9654,9414,9819,0,
9655,9412,9820,0,
9656,0,9821,2,
9657,9415,9822,0,
9658,0,9823,2,
9659,9416,9824,0,
9661,0,9825,2,
9663,0,9826,2,
9662,0,9827,2,
9660,0,9828,2,
9666,9420,9829,0,
9664,9418,9830,0,
9667,9417,9831,0,
9665,9419,9832,0,
9668,0,9833,2,
9669,9421,9834,0,
9670,0,9835,2,
9672,0,9836,2,
9530,0,9837,2,
9289,9726,9838,1,
9676,0,9839,2,
6278,9682,9840,0,
6422,9682,9841,0,
9686,0,9842,2,
9683,9342,9843,1,
6553,9682,9844,0,
9675,6655,9845,0,
9675,6712,9846,0,
9685,0,9847,2,
9684,0,9848,2,
9688,0,9849,2,
9687,6655,9850,0,
9675,6647,9851,0,
9538,9686,9852,0,
9691,9690,9853,0,
9693,0,9854,2,
9696,0,9855,2,
9687,6653,9856,0,
9675,7236,9857,0,
9687,6647,9858,0,
9675,6653,9859,0,
9698,0,9860,2,
8969,9697,9861,0,
8933,9697,9862,0,
9701,0,9863,2,
8505,9702,9864,0,
9700,0,9865,2,
9699,0,9866,2,
9462,9706,9867,1,
9705,9457,9868,0,
9707,8890,9869,0,
9714,9711,9870,0,
9675,6842,9871,0,
9179,9713,9872,0,
9710,9711,9873,0,
9712,0,9874,2,
9687,7236,9875,0,
9473,9717,9876,0,
9716,8502,9877,0,
9718,0,9878,2,
9720,9387,9879,0,
9721,7558,9880,0,
9715,0,9881,2,
9719,0,9882,2,
9727,7559,9883,0,
8694,9723,9884,0,
9725,9724,9885,1,
9720,0,9886,2,
9729,0,9887,2,
8817,9722,9888,0,
9243,9680,9889,1,
9733,9734,9890,0,
9289,9726,9891,0,
9730,0,9892,2,
9732,0,9893,2,
9736,0,9894,2,
9292,9738,9895,0,
9725,9724,9896,0,
9735,7907,9897,0,
9737,9474,9898,0,
8697,9722,9899,0,
9740,0,9900,2,
9675,6673,9901,0,
9739,0,9902,2,
9675,7484,9903,0,
9710,0,9904,2,
9734,0,9905,2,
9687,6673,9906,0,
9687,6842,9907,0,
9743,0,9908,2,
9741,7916,9909,0,
9742,0,9910,2,
9746,7921,9911,0,
9750,0,9912,2,
9747,7577,9913,0,
9749,7923,9914,0,
9751,0,9915,2,
9753,0,9916,2,
9675,7253,9917,0,
9752,7581,9918,0,
9687,7484,9919,0,
9677,9239,9920,1,
9675,6832,9921,0,
9755,7582,9922,0,
9687,7253,9923,0,
9675,7262,9924,0,
9754,0,9925,2,
9592,9756,9926,0,
9595,9757,9927,0,
9687,6712,9928,0,
9758,0,9929,2,
9760,0,9930,2,
9767,0,9931,2,
9600,9769,9932,0,
9675,8687,9933,0,
9687,8687,9934,0,
9675,7512,9935,0,
9675,7293,9936,0,
9687,7512,9937,0,
9687,7262,9938,0,
9771,0,9939,2,
9772,9232,9940,0,
9675,6912,9941,0,
9675,7508,9942,0,
9687,7518,9943,0,
9675,7331,9944,0,
9687,6912,9945,0,
9687,7293,9946,0,
9606,9776,9947,0,
9615,9781,9948,0,
9614,9782,9949,0,
9678,0,9950,2,
9675,7562,9951,0,
9687,7331,9952,0,
9687,7508,9953,0,
9675,7518,9954,0,
9620,9787,9955,0,
9675,6734,9956,0,
9675,7357,9957,0,
9687,7562,9958,0,
9687,6734,9959,0,
9789,0,9960,2,
9792,9793,9961,0,
9687,7357,9962,0,
9675,7362,9963,0,
9796,9797,9964,0,
9675,8728,9965,0,
9687,7362,9966,0,
9687,7993,9967,0,
9675,6755,9968,0,
9687,6755,9969,0,
9675,7159,9970,0,
9675,8041,9971,0,
9675,7601,9972,0,
9687,8728,9973,0,
9687,8041,9974,0,
9687,7159,9975,0,
9675,7993,9976,0,
9687,7601,9977,0,
9835,7757,9978,0,
9836,8150,9979,0,
9379,9717,9980,0,
9677,0,9981,2,
9837,9043,9982,0,
9839,9523,9983,0,
9681,9920,9984,0,
9841,0,9985,2,
9840,0,9986,2,
9683,9842,9987,1,
9843,0,9988,2,
9844,0,9989,2,
9843,9436,9990,0,
9845,0,9991,2,
9846,0,9992,2,
9848,9689,9993,0,
9850,0,9994,2,
9694,9849,9995,0,
9851,0,9996,2,
9136,9853,9997,1,
9855,9549,9998,0,
9861,0,9999,2,
9858,0,10000,2,
9859,0,10001,2,
9455,9860,10002,0,
9857,0,10003,2,
9856,0,10004,2,
9863,9460,10005,0,
1049,9864,10006,1,
9862,0,10007,2,
9711,9867,10008,0,
7879,9869,10009,1,
9868,0,10010,2,
9873,0,10011,2,
9715,9867,10012,0,
9871,0,10013,2,
9872,0,10014,2,
9875,0,10015,2,
8698,9880,10016,0,
9879,0,10017,2,
7883,9877,10018,1,
9876,0,10019,2,
9838,9885,10020,0,
8699,9883,10021,0,
9888,0,10022,2,
9287,9886,10023,0,
8248,9884,10024,1,
9890,0,10025,2,
9891,9885,10026,0,
9739,9889,10027,1,
9893,7126,10028,0,
9899,0,10029,2,
9898,0,10030,2,
7912,9897,10031,0,
9895,0,10032,2,
9894,7127,10033,0,
9906,0,10034,2,
9903,0,10035,2,
9901,0,10036,2,
9907,0,10037,2,
9574,9905,10038,0,
9902,9889,10039,0,
9900,7129,10040,0,
7917,9909,10041,0,
7924,9911,10042,0,
9891,0,10043,2,
7929,9914,10044,0,
8708,9913,10045,0,
9694,9849,10046,0,
9915,7138,10047,0,
9919,0,10048,2,
9917,0,10049,2,
8711,9918,10050,0,
9916,7139,10051,0,
9921,0,10052,2,
9924,0,10053,2,
9923,0,10054,2,
9926,9762,10055,0,
9927,9763,10056,0,
9928,0,10057,2,
8713,9922,10058,0,
9931,7147,10059,0,
9932,9770,10060,0,
9934,0,10061,2,
9937,0,10062,2,
9935,0,10063,2,
9938,0,10064,2,
9936,0,10065,2,
9933,0,10066,2,
9947,9777,10067,0,
9943,0,10068,2,
9944,0,10069,2,
9945,0,10070,2,
9942,0,10071,2,
9941,0,10072,2,
9946,0,10073,2,
9949,9784,10074,0,
9948,9783,10075,0,
9951,0,10076,2,
9952,0,10077,2,
9953,0,10078,2,
9954,0,10079,2,
9955,9788,10080,0,
9956,0,10081,2,
9960,8006,10082,1,
9958,0,10083,2,
9959,0,10084,2,
9957,0,10085,2,
9960,8006,10086,0,
9961,9794,10087,0,
9963,0,10088,2,
9962,0,10089,2,
9964,9798,10090,0,
9965,0,10091,2,
9966,0,10092,2,
9970,0,10093,2,
9968,0,10094,2,
9969,0,10095,2,
8619,9842,10096,1,
9967,0,10097,2,
9842,8619,10098,0,
9971,0,10099,2,
9973,0,10100,2,
9972,0,10101,2,
9974,0,10102,2,
9975,0,10103,2,
9977,0,10104,2,
9976,0,10105,2,
8766,9978,10106,0,
9896,0,10107,2,
8153,9979,10108,0,
9980,0,10109,2,
9940,0,10110,2,
9940,9920,10111,0,
9981,9328,10112,0,
9982,0,10113,2,
1076,10106,10114,1,
1076,10108,10115,1,
10109,9519,10116,0,
9731,10019,10117,0,
9983,9679,10118,0,
1510,10024,10119,0,
9986,6429,10120,0,
6682,9985,10121,0,
9987,0,10122,2,
9987,9343,10123,0,
9990,6653,10124,0,
9990,6712,10125,0,
9990,6832,10126,0,
7496,9989,10127,0,
9990,6655,10128,0,
9990,6647,10129,0,
9847,9991,10130,0,
9692,9992,10131,0,
9854,9994,10132,0,
9695,9996,10133,0,
9998,9703,10134,0,
9708,10001,10135,0,
8934,9999,10136,0,
10002,0,10137,2,
9866,10004,10138,0,
9990,7236,10139,0,
9865,10000,10140,0,
9704,10003,10141,0,
9349,10005,10142,1,
10007,7902,10143,1,
10006,0,10144,2,
10002,9714,10145,1,
10010,9385,10146,0,
10007,7902,10147,0,
9710,10008,10148,0,
9882,10015,10149,0,
10011,9881,10150,0,
9728,10013,10151,0,
10012,0,10152,2,
1049,10016,10153,1,
2274,10018,10154,0,
9990,6842,10155,0,
1547,10024,10156,0,
1037,10021,10157,1,
9990,7484,10158,0,
9990,6673,10159,0,
10023,0,10160,2,
8937,10022,10161,0,
8700,10028,10162,0,
9578,10025,10163,0,
10027,0,10164,2,
8703,10033,10165,0,
10025,10032,10166,0,
10029,8701,10167,0,
1547,10018,10168,0,
10029,8701,10169,1,
1037,10031,10170,1,
10039,0,10171,2,
9744,10035,10172,0,
9908,10034,10173,0,
10038,0,10174,2,
8705,10040,10175,0,
8812,9999,10176,0,
9910,10037,10177,0,
9745,10036,10178,0,
9990,7262,10179,0,
1503,10018,10180,0,
2274,10024,10181,0,
9990,7253,10182,0,
9990,7512,10183,0,
10041,0,10184,2,
1013,10042,10185,1,
9990,8687,10186,0,
1034,10044,10187,1,
1034,10045,10188,1,
1503,10024,10189,0,
9983,9679,10190,1,
10046,9992,10191,0,
8712,10047,10192,0,
1550,10024,10193,0,
1550,10018,10194,0,
8893,9999,10195,0,
1013,10050,10196,1,
9759,10049,10197,0,
8715,10051,10198,0,
9990,7518,10199,0,
9990,7293,10200,0,
9925,10048,10201,0,
9136,10055,10202,1,
10058,0,10203,2,
9929,10054,10204,0,
9764,10053,10205,0,
9990,7508,10206,0,
9765,10052,10207,0,
9136,10056,10208,1,
9930,10057,10209,0,
1510,10018,10210,0,
9990,6912,10211,0,
9524,10009,10212,0,
8723,10059,10213,0,
2924,10018,10214,0,
9136,10060,10215,1,
9774,10066,10216,0,
9939,10064,10217,0,
9773,10063,10218,0,
9775,10065,10219,0,
9990,7331,10220,0,
9990,7562,10221,0,
2924,10024,10222,0,
9780,10071,10223,0,
9136,10067,10224,1,
9778,10069,10225,0,
9779,10072,10226,0,
9136,10075,10227,1,
9136,10074,10228,1,
9785,10076,10229,0,
9990,8728,10230,0,
9990,6734,10231,0,
9786,10079,10232,0,
9990,7357,10233,0,
9136,10080,10234,1,
1503,10082,10235,0,
9790,10081,10236,0,
9791,10085,10237,0,
10086,0,10238,2,
9990,7362,10239,0,
9136,10087,10240,1,
9346,10009,10241,0,
1550,10082,10242,0,
9795,10088,10243,0,
9136,10090,10244,1,
9990,7601,10245,0,
1547,10082,10246,0,
1510,10082,10247,0,
9803,10091,10248,0,
9990,7993,10249,0,
9990,6755,10250,0,
10096,8061,10251,0,
9806,10094,10252,0,
10096,7672,10253,1,
9805,10093,10254,0,
9990,7159,10255,0,
10098,0,10256,2,
9807,10101,10257,0,
2924,10082,10258,0,
9990,8041,10259,0,
9812,10105,10260,0,
2274,10082,10261,0,
10026,0,10262,2,
10111,0,10263,2,
10112,0,10264,2,
10115,0,10265,2,
10118,0,10266,2,
1076,10162,10267,1,
10119,0,10268,2,
3674,10121,10269,1,
5407,10120,10270,1,
10122,9343,10271,0,
10122,9988,10272,0,
10123,6832,10273,0,
10123,7236,10274,0,
10123,6655,10275,0,
10127,0,10276,2,
10127,1323,10277,0,
10126,0,10278,2,
10125,0,10279,2,
10124,0,10280,2,
10123,6647,10281,0,
10123,6653,10282,0,
10128,0,10283,2,
10130,9993,10284,0,
10129,0,10285,2,
9995,10131,10286,0,
10133,10132,10287,0,
10123,6842,10288,0,
10134,0,10289,2,
10141,10138,10290,0,
10136,0,10291,2,
10135,10140,10292,0,
10139,0,10293,2,
9714,10137,10294,0,
9874,10142,10295,0,
9870,10137,10296,0,
10147,0,10297,2,
10148,0,10298,2,
10145,9878,10299,1,
10146,0,10300,2,
10142,0,10301,2,
10123,6673,10302,0,
10151,10149,10303,0,
10155,0,10304,2,
9714,10137,10305,0,
10123,7253,10306,0,
10123,7484,10307,0,
10117,0,10308,2,
10145,0,10309,2,
10154,0,10310,2,
10153,0,10311,2,
10161,0,10312,2,
10158,0,10313,2,
10159,0,10314,2,
10157,0,10315,2,
10156,0,10316,2,
10163,9390,10317,0,
9898,10164,10318,0,
9892,10164,10319,0,
1547,10169,10320,0,
10170,0,10321,2,
10168,0,10322,2,
9335,10116,10323,1,
1037,10165,10324,1,
10167,0,10325,2,
10123,7262,10326,0,
10123,8687,10327,0,
10176,0,10328,2,
1049,10175,10329,1,
10178,10177,10330,0,
10123,7293,10331,0,
10172,10173,10332,0,
10182,0,10333,2,
10190,10185,10334,1,
10183,0,10335,2,
10179,0,10336,2,
10123,7512,10337,0,
10181,0,10338,2,
10180,0,10339,2,
10186,0,10340,2,
10117,9838,10341,1,
10185,0,10342,2,
9200,10191,10343,1,
10189,0,10344,2,
10187,0,10345,2,
10188,0,10346,2,
10195,0,10347,2,
10123,7508,10348,0,
10123,6912,10349,0,
10194,0,10350,2,
1013,10192,10351,1,
10193,0,10352,2,
2274,10169,10353,0,
10197,10201,10354,0,
10196,0,10355,2,
10123,7518,10356,0,
10200,0,10357,2,
1034,10198,10358,1,
1503,10169,10359,0,
10199,0,10360,2,
10206,0,10361,2,
10207,10209,10362,0,
9394,10202,10363,0,
10205,10204,10364,0,
10210,0,10365,2,
10202,9768,10366,0,
10208,0,10367,2,
10123,7331,10368,0,
1550,10169,10369,0,
9524,10143,10370,0,
10214,0,10371,2,
10213,0,10372,2,
10211,0,10373,2,
10212,0,10374,2,
10216,10217,10375,0,
10123,6734,10376,0,
10123,7562,10377,0,
10215,0,10378,2,
10222,0,10379,2,
10221,0,10380,2,
10220,0,10381,2,
10224,0,10382,2,
2924,10169,10383,0,
10227,0,10384,2,
10123,7357,10385,0,
10228,0,10386,2,
10123,7601,10387,0,
10231,0,10388,2,
10230,0,10389,2,
10123,7362,10390,0,
10233,0,10391,2,
10234,0,10392,2,
10235,0,10393,2,
10123,8728,10394,0,
8015,10238,10395,0,
10239,0,10396,2,
10240,0,10397,2,
10241,0,10398,2,
10242,0,10399,2,
9346,10143,10400,0,
10123,7993,10401,0,
10247,0,10402,2,
10245,0,10403,2,
10246,0,10404,2,
10123,7159,10405,0,
10123,6755,10406,0,
10244,0,10407,2,
10250,0,10408,2,
10249,0,10409,2,
10123,8041,10410,0,
10251,0,10411,2,
10253,0,10412,2,
10255,0,10413,2,
10258,0,10414,2,
10259,0,10415,2,
10261,0,10416,2,
1510,10169,10417,0,
10115,9432,10418,1,
10114,0,10419,2,
10114,9431,10420,1,
10263,10264,10421,0,
10262,10107,10422,0,
10267,9531,10423,1,
10265,9527,10424,0,
10113,10266,10425,0,
9200,10364,10426,1,
10270,0,10427,2,
10270,9842,10428,1,
10272,9436,10429,0,
10271,6891,10430,0,
10271,8680,10431,0,
10273,0,10432,2,
10271,7273,10433,0,
10274,0,10434,2,
10275,0,10435,2,
10276,1324,10436,1,
10277,0,10437,2,
10271,7284,10438,0,
10271,8229,10439,0,
10281,0,10440,2,
10282,0,10441,2,
9200,10284,10442,1,
10286,9997,10443,0,
9200,10287,10444,1,
10271,8967,10445,0,
10301,9712,10446,0,
10288,0,10447,2,
10289,9709,10448,0,
10289,9709,10449,1,
9200,10292,10450,1,
10294,10008,10451,0,
8936,10291,10452,0,
9200,10290,10453,1,
10296,0,10454,2,
10295,0,10455,2,
10299,0,10456,2,
10271,9067,10457,0,
10017,10300,10458,0,
10297,8234,10459,0,
10298,9887,10460,0,
10302,0,10461,2,
10271,9175,10462,0,
10271,9112,10463,0,
9200,10303,10464,1,
9712,10301,10465,1,
10310,8516,10466,0,
10309,9878,10467,0,
10306,0,10468,2,
10307,0,10469,2,
10305,0,10470,2,
10316,8273,10471,0,
8519,10312,10472,0,
10318,0,10473,2,
10317,0,10474,2,
10267,0,10475,2,
9838,10308,10476,0,
10320,0,10477,2,
10325,8696,10478,0,
10271,9361,10479,0,
10271,9451,10480,0,
10323,0,10481,2,
10322,8523,10482,0,
10271,10009,10483,0,
10328,8242,10484,0,
9200,10330,10485,1,
10327,0,10486,2,
10324,0,10487,2,
10331,0,10488,2,
10271,9470,10489,0,
10326,0,10490,2,
9200,10332,10491,1,
10339,8528,10492,0,
10337,0,10493,2,
10334,0,10494,2,
10338,8292,10495,0,
10190,10342,10496,0,
10329,0,10497,2,
10341,0,10498,2,
10343,0,10499,2,
10343,9761,10500,1,
10271,10143,10501,0,
10344,8297,10502,0,
8504,10347,10503,0,
10350,8542,10504,0,
10348,0,10505,2,
10353,0,10506,2,
10349,0,10507,2,
10352,8308,10508,0,
10359,0,10509,2,
10356,0,10510,2,
10351,0,10511,2,
9200,10354,10512,1,
9200,10362,10513,1,
10363,0,10514,2,
10358,0,10515,2,
10365,8554,10516,0,
10366,0,10517,2,
10369,0,10518,2,
10368,0,10519,2,
10370,0,10520,2,
10371,8560,10521,0,
10374,10061,10522,0,
9200,10375,10523,1,
10376,0,10524,2,
10377,0,10525,2,
10379,8348,10526,0,
10383,0,10527,2,
10387,0,10528,2,
10385,0,10529,2,
10390,0,10530,2,
10393,8017,10531,0,
10394,0,10532,2,
10395,0,10533,2,
10398,9799,10534,0,
10399,8045,10535,0,
10400,0,10536,2,
10401,0,10537,2,
10402,8052,10538,0,
10404,8056,10539,0,
10405,0,10540,2,
10406,0,10541,2,
10256,10411,10542,0,
10410,0,10543,2,
10414,8083,10544,0,
10416,8105,10545,0,
10417,0,10546,2,
10418,0,10547,2,
10020,10308,10548,0,
10419,9673,10549,0,
10268,8201,10550,0,
10424,0,10551,2,
10425,0,10552,2,
8851,10550,10553,0,
10436,0,10554,2,
10269,10427,10555,1,
10428,0,10556,2,
10429,6647,10557,0,
10429,6712,10558,0,
10430,0,10559,2,
10431,0,10560,2,
10433,0,10561,2,
10434,10280,10562,0,
10435,10278,10563,0,
10429,6832,10564,0,
10429,6655,10565,0,
10438,0,10566,2,
10440,10283,10567,0,
10439,0,10568,2,
10441,10285,10569,0,
10442,0,10570,2,
10443,9438,10571,1,
9438,10443,10572,0,
10444,0,10573,2,
10429,6653,10574,0,
10445,0,10575,2,
10446,0,10576,2,
10448,0,10577,2,
10449,10144,10578,1,
10447,10293,10579,0,
10453,0,10580,2,
10450,0,10581,2,
10451,0,10582,2,
10449,10144,10583,0,
10452,0,10584,2,
10150,10454,10585,0,
10152,10455,10586,0,
10429,7236,10587,0,
10457,0,10588,2,
10429,6673,10589,0,
10429,6842,10590,0,
10020,10456,10591,0,
7887,10459,10592,1,
10458,0,10593,2,
10465,0,10594,2,
10464,0,10595,2,
10461,10304,10596,0,
10026,10456,10597,0,
9896,10456,10598,0,
10463,0,10599,2,
10462,0,10600,2,
10467,0,10601,2,
8702,10466,10602,0,
10468,10313,10603,0,
10469,10314,10604,0,
10470,9904,10605,0,
10472,0,10606,2,
8818,10471,10607,0,
10473,10171,10608,0,
10429,7253,10609,0,
10429,8687,10610,0,
10429,7484,10611,0,
10475,9748,10612,0,
10174,10474,10613,0,
10476,0,10614,2,
10480,0,10615,2,
8258,10478,10616,1,
10479,0,10617,2,
10481,9912,10618,0,
10429,7262,10619,0,
10483,0,10620,2,
8707,10482,10621,0,
10477,8525,10622,0,
10490,10333,10623,0,
10488,10335,10624,0,
10489,0,10625,2,
10491,0,10626,2,
10485,0,10627,2,
7891,10484,10628,1,
10481,0,10629,2,
10486,10336,10630,0,
8820,10495,10631,0,
8710,10492,10632,0,
9681,10425,10633,1,
10493,10340,10634,0,
10429,7508,10635,0,
10496,0,10636,2,
10429,7512,10637,0,
10498,10345,10638,0,
10500,0,10639,2,
9766,10499,10640,0,
10429,7293,10641,0,
8821,10502,10642,0,
10501,0,10643,2,
8822,10508,10644,0,
8720,10504,10645,0,
10507,10360,10646,0,
10505,10357,10647,0,
10506,8546,10648,0,
7322,10503,10649,1,
10510,10361,10650,0,
10512,0,10651,2,
10509,8549,10652,0,
10429,7518,10653,0,
10426,0,10654,2,
10500,10367,10655,0,
10513,0,10656,2,
8725,10516,10657,0,
10520,10062,10658,0,
10519,10373,10659,0,
10518,8563,10660,0,
10218,10522,10661,0,
8729,10521,10662,0,
10429,7331,10663,0,
10429,6912,10664,0,
10523,0,10665,2,
10525,10381,10666,0,
10524,10380,10667,0,
8829,10526,10668,0,
10527,8595,10669,0,
10429,7562,10670,0,
10429,7362,10671,0,
10429,6734,10672,0,
10528,10389,10673,0,
10529,10388,10674,0,
10530,10391,10675,0,
10429,7357,10676,0,
8382,10531,10677,0,
10532,10396,10678,0,
10533,8027,10679,1,
10533,8027,10680,0,
10534,9801,10681,0,
10429,8728,10682,0,
8400,10535,10683,0,
10536,9802,10684,0,
10429,7601,10685,0,
10429,7993,10686,0,
10537,10403,10687,0,
10429,8041,10688,0,
8401,10538,10689,0,
8404,10539,10690,0,
10429,6755,10691,0,
10541,10409,10692,0,
10540,10408,10693,0,
10542,0,10694,2,
10543,10413,10695,0,
8413,10544,10696,0,
10429,7159,10697,0,
8420,10545,10698,0,
10546,8634,10699,0,
10548,0,10700,2,
10549,0,10701,2,
9984,10552,10702,0,
1013,10657,10703,1,
10269,10554,10704,1,
10555,0,10705,2,
10557,0,10706,2,
10558,0,10707,2,
10432,10559,10708,0,
10437,10554,10709,1,
10564,0,10710,2,
10565,0,10711,2,
10570,10571,10712,0,
10572,0,10713,2,
10574,0,10714,2,
10576,10578,10715,0,
10014,10577,10716,0,
10152,10582,10717,0,
10583,0,10718,2,
10584,7560,10719,0,
10587,0,10720,2,
9867,10585,10721,1,
10586,10460,10722,0,
10160,10593,10723,0,
10589,0,10724,2,
10591,10308,10725,0,
10590,0,10726,2,
10597,0,10727,2,
10598,0,10728,2,
1076,10602,10729,1,
9711,10605,10730,1,
1037,10607,10731,1,
10606,8278,10732,0,
10611,0,10733,2,
10609,0,10734,2,
10610,0,10735,2,
10614,10043,10736,0,
10619,0,10737,2,
1037,10621,10738,1,
1547,10616,10739,0,
8819,10622,10740,0,
10618,0,10741,2,
9750,10629,10742,0,
1049,10632,10743,1,
10271,10628,10744,0,
1076,10631,10745,1,
10633,0,10746,2,
10638,0,10747,2,
10635,0,10748,2,
10637,0,10749,2,
10271,10592,10750,0,
1049,10642,10751,1,
10606,8278,10752,1,
10641,0,10753,2,
10208,10639,10754,0,
9997,10640,10755,1,
8824,10648,10756,0,
2274,10616,10757,0,
1034,10645,10758,1,
1034,10644,10759,1,
10271,10649,10760,0,
10442,10571,10761,1,
8825,10652,10762,0,
10655,0,10763,2,
10653,0,10764,2,
1503,10616,10765,0,
10584,7560,10766,1,
1550,10616,10767,0,
8826,10660,10768,0,
10219,10658,10769,0,
9524,10649,10770,0,
9524,10592,10771,0,
9200,10661,10772,1,
10664,0,10773,2,
10662,0,10774,2,
10663,0,10775,2,
9524,10628,10776,0,
10668,0,10777,2,
2924,10616,10778,0,
10671,0,10779,2,
10670,0,10780,2,
8831,10669,10781,0,
10672,0,10782,2,
10676,0,10783,2,
1049,10677,10784,1,
1550,10679,10785,0,
10680,0,10786,2,
9136,10681,10787,1,
10682,0,10788,2,
1034,10683,10789,1,
10684,9804,10790,0,
10685,0,10791,2,
10688,0,10792,2,
10686,0,10793,2,
1037,10690,10794,1,
9346,10592,10795,0,
1013,10689,10796,1,
9346,10628,10797,0,
1547,10679,10798,0,
10691,0,10799,2,
1510,10679,10800,0,
9346,10649,10801,0,
7703,10554,10802,1,
10697,0,10803,2,
10696,0,10804,2,
7703,10554,10805,0,
1076,10698,10806,1,
2274,10679,10807,0,
1503,10679,10808,0,
10612,0,10809,2,
9681,10552,10810,0,
2924,10679,10811,0,
10547,10551,10812,0,
8848,10699,10813,0,
10421,10551,10814,0,
1013,10553,10815,1,
1510,10616,10816,0,
10422,10700,10817,0,
10702,0,10818,2,
10816,0,10819,2,
10704,0,10820,2,
10704,10428,10821,0,
10705,10556,10822,0,
10704,10556,10823,0,
10560,10706,10824,0,
10708,10279,10825,0,
10561,10707,10826,0,
10709,0,10827,2,
10566,10710,10828,0,
10709,10437,10829,0,
10568,10711,10830,0,
10712,0,10831,2,
10575,10714,10832,0,
10715,0,10833,2,
10716,0,10834,2,
10717,10460,10835,0,
10719,0,10836,2,
9730,10716,10837,1,
10582,10718,10838,0,
10588,10720,10839,0,
10721,0,10840,2,
10725,0,10841,2,
10600,10724,10842,0,
10599,10726,10843,0,
10723,0,10844,2,
10721,10315,10845,1,
10727,10601,10846,0,
10730,10321,10847,1,
10729,10041,10848,1,
10729,0,10849,2,
10731,0,10850,2,
10730,0,10851,2,
10732,0,10852,2,
10620,10735,10853,0,
10617,10733,10854,0,
9885,10736,10855,1,
10615,10734,10856,0,
10625,10737,10857,0,
1037,10740,10858,1,
10738,0,10859,2,
10739,0,10860,2,
10742,0,10861,2,
10817,10299,10862,1,
10745,10058,10863,1,
10745,0,10864,2,
10196,10746,10865,1,
10744,0,10866,2,
10743,0,10867,2,
10750,0,10868,2,
10355,10746,10869,0,
10643,10749,10870,0,
10754,0,10871,2,
10751,0,10872,2,
10755,0,10873,2,
1547,10752,10874,0,
10757,0,10875,2,
1076,10756,10876,1,
10759,0,10877,2,
10758,0,10878,2,
1049,10762,10879,1,
10761,0,10880,2,
10760,0,10881,2,
10755,10656,10882,0,
1503,10752,10883,0,
10765,0,10884,2,
10703,0,10885,2,
1550,10752,10886,0,
10767,0,10887,2,
2274,10752,10888,0,
9200,10769,10889,1,
10271,10766,10890,0,
9524,10766,10891,0,
1034,10768,10892,1,
10761,10378,10893,0,
10772,0,10894,2,
10771,0,10895,2,
10770,0,10896,2,
10776,0,10897,2,
10778,0,10898,2,
2924,10752,10899,0,
10781,0,10900,2,
10784,0,10901,2,
10785,0,10902,2,
8040,10786,10903,0,
10787,0,10904,2,
10789,0,10905,2,
9136,10790,10906,1,
10796,0,10907,2,
10794,0,10908,2,
10795,0,10909,2,
10798,0,10910,2,
10797,0,10911,2,
10800,0,10912,2,
10801,0,10913,2,
10802,7163,10914,1,
10802,7396,10915,0,
10805,0,10916,2,
9346,10766,10917,0,
10806,0,10918,2,
10807,0,10919,2,
10808,0,10920,2,
1510,10752,10921,0,
10810,0,10922,2,
10815,0,10923,2,
10811,0,10924,2,
1013,10813,10925,1,
10812,0,10926,2,
10820,10428,10927,0,
10421,10818,10928,0,
10922,10110,10929,0,
10814,10818,10930,0,
10821,6891,10931,0,
10821,0,10932,2,
10822,6712,10933,0,
10823,10555,10934,0,
10562,10824,10935,0,
9686,10825,10936,1,
10563,10826,10937,0,
10822,6655,10938,0,
10821,7284,10939,0,
10822,6832,10940,0,
10821,7273,10941,0,
10822,6647,10942,0,
10821,8229,10943,0,
10821,8967,10944,0,
10822,7236,10945,0,
10821,9067,10946,0,
10822,6842,10947,0,
10821,9112,10948,0,
10822,6673,10949,0,
10827,6712,10950,0,
10821,8680,10951,0,
10822,6653,10952,0,
10827,6647,10953,0,
10829,6655,10954,0,
10567,10828,10955,0,
10827,6832,10956,0,
10829,6712,10957,0,
10829,6653,10958,0,
10827,7236,10959,0,
10827,6653,10960,0,
10829,6647,10961,0,
10829,6832,10962,0,
10827,6655,10963,0,
10569,10830,10964,0,
10821,9451,10965,0,
10821,9361,10966,0,
10822,7262,10967,0,
10822,7484,10968,0,
10821,9175,10969,0,
10822,7253,10970,0,
10831,10713,10971,0,
10829,7236,10972,0,
10829,6842,10973,0,
10827,6842,10974,0,
10827,6673,10975,0,
10829,6673,10976,0,
10827,7484,10977,0,
10821,10009,10978,0,
10822,7293,10979,0,
10821,10143,10980,0,
10821,9470,10981,0,
10822,8687,10982,0,
10822,7512,10983,0,
10579,10832,10984,0,
10827,7253,10985,0,
10827,8687,10986,0,
10829,7262,10987,0,
10829,7484,10988,0,
10827,7262,10989,0,
10829,7253,10990,0,
10718,10833,10991,0,
9892,10834,10992,0,
10722,10838,10993,0,
10837,10311,10994,1,
10821,10592,10995,0,
10822,7508,10996,0,
8266,10836,10997,0,
10835,0,10998,2,
10840,10315,10999,0,
10596,10839,11000,0,
10603,10842,11001,0,
10604,10843,11002,0,
10319,10834,11003,0,
10837,10311,11004,0,
10166,10844,11005,0,
10841,10728,11006,0,
10827,7512,11007,0,
10829,8687,11008,0,
10848,10423,11009,0,
10849,10184,11010,0,
10612,10848,11011,0,
10847,0,11012,2,
10851,10321,11013,0,
8290,10852,11014,0,
10630,10856,11015,0,
10623,10854,11016,0,
10624,10853,11017,0,
10821,10628,11018,0,
10822,7518,11019,0,
10827,7331,11020,0,
10829,6912,11021,0,
10822,6734,11022,0,
10855,0,11023,2,
10634,10857,11024,0,
10860,8716,11025,0,
10858,0,11026,2,
10862,0,11027,2,
10829,7512,11028,0,
10827,7293,11029,0,
10855,10188,11030,0,
10866,10748,11031,0,
10865,0,11032,2,
10864,10203,11033,0,
10647,10870,11034,0,
10821,10649,11035,0,
10822,6912,11036,0,
10868,10753,11037,0,
10845,0,11038,2,
10869,0,11039,2,
10829,7331,11040,0,
10827,7562,11041,0,
10874,0,11042,2,
10513,10873,11043,0,
10514,10871,11044,0,
10875,8724,11045,0,
10876,10213,11046,1,
10876,0,11047,2,
10862,10515,11048,0,
10829,7293,11049,0,
10827,7508,11050,0,
10215,10880,11051,0,
10881,10764,11052,0,
10879,0,11053,2,
10924,8182,11054,0,
10822,7331,11055,0,
10821,10766,11056,0,
10882,0,11057,2,
10883,0,11058,2,
10887,8732,11059,0,
10884,8731,11060,0,
10886,0,11061,2,
10888,0,11062,2,
10891,0,11063,2,
10827,7518,11064,0,
10890,0,11065,2,
10892,0,11066,2,
10889,0,11067,2,
10829,7562,11068,0,
10829,7508,11069,0,
10827,6734,11070,0,
10896,10068,11071,0,
10893,0,11072,2,
10895,10073,11073,0,
10822,7562,11074,0,
10829,7518,11075,0,
10827,6912,11076,0,
10829,7357,11077,0,
10827,7362,11078,0,
10829,6734,11079,0,
10827,7357,11080,0,
10897,10078,11081,0,
10822,7601,11082,0,
10898,8743,11083,0,
10899,0,11084,2,
10822,7357,11085,0,
10829,7362,11086,0,
10827,8728,11087,0,
10822,7362,11088,0,
10829,8728,11089,0,
10827,7601,11090,0,
10822,8728,11091,0,
10902,8046,11092,0,
10822,6755,11093,0,
10903,0,11094,2,
10822,7159,11095,0,
10827,7993,11096,0,
10829,7601,11097,0,
10827,6755,11098,0,
10829,7993,11099,0,
10822,8041,11100,0,
10829,6755,11101,0,
10827,7159,11102,0,
10909,9808,11103,0,
10906,0,11104,2,
10911,9810,11105,0,
10910,8073,11106,0,
10822,7993,11107,0,
10912,8079,11108,0,
10829,7159,11109,0,
10827,8041,11110,0,
10913,9813,11111,0,
10914,0,11112,2,
10915,0,11113,2,
10917,0,11114,2,
10829,8041,11115,0,
10919,8120,11116,0,
10920,8145,11117,0,
10926,10420,11118,0,
10819,8660,11119,0,
10925,0,11120,2,
10921,0,11121,2,
9686,10984,11122,1,
9686,10955,11123,1,
9686,11000,11124,1,
10928,0,11125,2,
8773,11119,11126,0,
10930,0,11127,2,
8335,11054,11128,0,
10927,6832,11129,0,
10927,0,11130,2,
10931,0,11131,2,
10933,0,11132,2,
10927,6647,11133,0,
10934,6832,11134,0,
10939,0,11135,2,
9686,10935,11136,1,
10938,0,11137,2,
10934,6712,11138,0,
10927,6653,11139,0,
10927,6655,11140,0,
10934,6653,11141,0,
10934,6655,11142,0,
10927,6842,11143,0,
10936,0,11144,2,
9686,10937,11145,1,
10944,0,11146,2,
10945,0,11147,2,
10942,0,11148,2,
10927,6673,11149,0,
10934,7236,11150,0,
10927,7484,11151,0,
10934,6842,11152,0,
10940,0,11153,2,
10941,0,11154,2,
10927,7236,11155,0,
10934,6647,11156,0,
10943,0,11157,2,
10946,0,11158,2,
10947,0,11159,2,
10952,0,11160,2,
10951,0,11161,2,
10949,0,11162,2,
10948,0,11163,2,
10950,0,11164,2,
10956,0,11165,2,
10957,0,11166,2,
10953,0,11167,2,
10954,0,11168,2,
10963,0,11169,2,
10962,0,11170,2,
9686,10964,11171,1,
10960,0,11172,2,
10959,0,11173,2,
10958,0,11174,2,
10961,0,11175,2,
10936,9852,11176,1,
10934,7253,11177,0,
10927,8687,11178,0,
10934,7484,11179,0,
10927,7253,11180,0,
10934,6673,11181,0,
10927,7262,11182,0,
10965,0,11183,2,
10968,0,11184,2,
10969,0,11185,2,
10970,0,11186,2,
10966,0,11187,2,
10967,0,11188,2,
10971,0,11189,2,
10977,0,11190,2,
10976,0,11191,2,
10975,0,11192,2,
10972,0,11193,2,
10973,0,11194,2,
10974,0,11195,2,
10934,7262,11196,0,
10927,7508,11197,0,
10934,8687,11198,0,
10934,7512,11199,0,
10927,7293,11200,0,
10927,7512,11201,0,
10982,0,11202,2,
10979,0,11203,2,
10981,0,11204,2,
10980,0,11205,2,
10983,0,11206,2,
10978,0,11207,2,
10985,0,11208,2,
10988,0,11209,2,
10989,0,11210,2,
10986,0,11211,2,
10987,0,11212,2,
10990,0,11213,2,
10991,0,11214,2,
10992,0,11215,2,
10934,7293,11216,0,
10927,7518,11217,0,
10998,10594,11218,1,
10997,0,11219,2,
10995,0,11220,2,
10996,0,11221,2,
10993,0,11222,2,
10999,0,11223,2,
9686,11002,11224,1,
11005,0,11225,2,
10998,10465,11226,0,
11007,0,11227,2,
11008,0,11228,2,
9686,11001,11229,1,
11003,0,11230,2,
11004,0,11231,2,
11006,10846,11232,0,
11010,0,11233,2,
11011,0,11234,2,
10934,7508,11235,0,
10927,6912,11236,0,
10927,7357,11237,0,
10934,7562,11238,0,
9920,10929,11239,1,
11013,0,11240,2,
11014,0,11241,2,
11019,0,11242,2,
11018,0,11243,2,
9686,11015,11244,1,
11023,10346,11245,0,
9686,11017,11246,1,
11022,0,11247,2,
9686,11016,11248,1,
11021,0,11249,2,
11020,0,11250,2,
8717,11025,11251,0,
9686,11024,11252,1,
11028,0,11253,2,
11029,0,11254,2,
11030,0,11255,2,
10358,11027,11256,0,
10646,11031,11257,0,
10934,7518,11258,0,
11033,0,11259,2,
10927,7331,11260,0,
10650,11037,11261,0,
11035,0,11262,2,
11036,0,11263,2,
9686,11034,11264,1,
11040,0,11265,2,
11041,0,11266,2,
11042,8557,11267,0,
11044,10517,11268,0,
11043,0,11269,2,
8726,11045,11270,0,
11047,10372,11271,0,
11049,0,11272,2,
8748,11083,11273,0,
11050,0,11274,2,
11048,0,11275,2,
10927,7562,11276,0,
10934,6912,11277,0,
11051,0,11278,2,
10659,11052,11279,0,
7572,10997,11280,1,
7933,11014,11281,1,
11056,0,11282,2,
11058,8572,11283,0,
11055,0,11284,2,
11061,8573,11285,0,
11062,8575,11286,0,
8735,11059,11287,0,
8734,11060,11288,0,
11070,0,11289,2,
11065,10773,11290,0,
11068,0,11291,2,
11064,0,11292,2,
11069,0,11293,2,
11063,10070,11294,0,
10223,11073,11295,0,
10226,11071,11296,0,
10934,7331,11297,0,
10927,6734,11298,0,
11074,0,11299,2,
11076,0,11300,2,
11075,0,11301,2,
10232,11081,11302,0,
10934,8728,11303,0,
10927,7993,11304,0,
11077,0,11305,2,
11078,0,11306,2,
11079,0,11307,2,
11080,0,11308,2,
11082,0,11309,2,
11084,8604,11310,0,
10927,7362,11311,0,
10934,6734,11312,0,
11085,0,11313,2,
11087,0,11314,2,
11086,0,11315,2,
10934,7357,11316,0,
10927,8728,11317,0,
11088,0,11318,2,
11090,0,11319,2,
11089,0,11320,2,
10934,7362,11321,0,
10927,7601,11322,0,
10927,7159,11323,0,
11091,0,11324,2,
10934,7993,11325,0,
8398,11092,11326,0,
11094,7389,11327,0,
11093,0,11328,2,
10927,8041,11329,0,
10934,6755,11330,0,
11094,7389,11331,1,
11096,0,11332,2,
11097,0,11333,2,
11095,0,11334,2,
11099,0,11335,2,
11098,0,11336,2,
11100,0,11337,2,
10934,7159,11338,0,
10934,8041,11339,0,
11102,0,11340,2,
11101,0,11341,2,
11103,9809,11342,0,
10934,7601,11343,0,
11105,9811,11344,0,
8410,11106,11345,0,
10927,6755,11346,0,
8412,11108,11347,0,
11107,0,11348,2,
11109,0,11349,2,
11110,0,11350,2,
11111,9814,11351,0,
10916,11113,11352,0,
11115,7730,11353,1,
11114,9817,11354,0,
7730,11115,11355,0,
8426,11116,11356,0,
8437,11117,11357,0,
11121,8775,11358,0,
1013,11126,11359,1,
11125,10418,11360,0,
11289,11291,11361,0,
11281,1510,11362,0,
11125,10547,11363,1,
11129,0,11364,2,
10932,11130,11365,0,
11134,0,11366,2,
11133,0,11367,2,
11141,0,11368,2,
11143,0,11369,2,
11139,0,11370,2,
11136,0,11371,2,
11145,0,11372,2,
11140,0,11373,2,
11138,0,11374,2,
9852,11144,11375,0,
11142,0,11376,2,
11149,0,11377,2,
11150,0,11378,2,
11155,0,11379,2,
11156,0,11380,2,
11151,0,11381,2,
11152,0,11382,2,
11167,11168,11383,0,
11165,11166,11384,0,
11123,0,11385,2,
11171,0,11386,2,
11169,11170,11387,0,
11172,11175,11388,0,
11173,11174,11389,0,
11177,0,11390,2,
11176,10573,11391,1,
11180,0,11392,2,
11181,0,11393,2,
11178,0,11394,2,
11179,0,11395,2,
11182,0,11396,2,
11176,0,11397,2,
11190,11191,11398,0,
11192,11194,11399,0,
11195,11193,11400,0,
11196,0,11401,2,
11200,0,11402,2,
11197,0,11403,2,
11199,0,11404,2,
11198,0,11405,2,
11201,0,11406,2,
11122,0,11407,2,
11208,11209,11408,0,
11210,11213,11409,0,
11211,11212,11410,0,
11217,0,11411,2,
11216,0,11412,2,
11215,10030,11413,0,
10994,11214,11414,0,
11218,0,11415,2,
7919,11219,11416,0,
11222,11214,11417,0,
11124,0,11418,2,
10845,11223,11419,0,
11227,11228,11420,0,
11232,0,11421,2,
10613,11225,11422,0,
10608,11230,11423,0,
11226,0,11424,2,
11224,0,11425,2,
11229,0,11426,2,
8293,11219,11427,0,
11234,11233,11428,0,
11236,0,11429,2,
11235,0,11430,2,
11240,11223,11431,0,
11237,0,11432,2,
11239,0,11433,2,
8298,11241,11434,0,
11238,0,11435,2,
11250,11249,11436,0,
11248,0,11437,2,
11245,0,11438,2,
11244,0,11439,2,
11246,0,11440,2,
1037,11251,11441,1,
11252,0,11442,2,
11254,11253,11443,0,
11256,0,11444,2,
11258,0,11445,2,
8552,11241,11446,0,
9686,11257,11447,1,
11232,10847,11448,1,
11260,0,11449,2,
11264,0,11450,2,
9686,11261,11451,1,
11269,10763,11452,0,
11268,0,11453,2,
11266,11265,11454,0,
8559,11267,11455,0,
11274,11272,11456,0,
1076,11270,11457,1,
11271,0,11458,2,
10271,11280,11459,0,
11277,0,11460,2,
11057,11278,11461,0,
1547,11281,11462,0,
9686,11279,11463,1,
11276,0,11464,2,
8574,11283,11465,0,
8736,11241,11466,0,
1550,11281,11467,0,
8828,11241,11468,0,
8579,11285,11469,0,
1034,11287,11470,1,
1049,11288,11471,1,
8580,11286,11472,0,
10666,11290,11473,0,
1503,11281,11474,0,
10821,11280,11475,0,
11292,11293,11476,0,
10225,11294,11477,0,
11298,0,11478,2,
11297,0,11479,2,
9200,11295,11480,1,
9524,11280,11481,0,
9200,11296,11482,1,
2274,11281,11483,0,
11300,11301,11484,0,
8899,11241,11485,0,
11304,0,11486,2,
11303,0,11487,2,
9200,11302,11488,1,
11306,11305,11489,0,
11308,11307,11490,0,
11273,0,11491,2,
11273,1205,11492,1,
8605,11310,11493,0,
2924,11281,11494,0,
11311,0,11495,2,
11312,0,11496,2,
11314,11315,11497,0,
11316,0,11498,2,
11317,0,11499,2,
11319,11320,11500,0,
11322,0,11501,2,
11321,0,11502,2,
11325,0,11503,2,
11323,0,11504,2,
1034,11326,11505,1,
1550,11331,11506,0,
11329,0,11507,2,
11327,0,11508,2,
1503,11331,11509,0,
11330,0,11510,2,
11332,11333,11511,0,
11336,11335,11512,0,
11338,0,11513,2,
11340,11341,11514,0,
11339,0,11515,2,
9136,11342,11516,1,
11343,0,11517,2,
11346,0,11518,2,
9136,11344,11519,1,
1037,11345,11520,1,
1013,11347,11521,1,
2924,11331,11522,0,
11350,11349,11523,0,
9136,11351,11524,1,
9346,11280,11525,0,
11352,0,11526,2,
11354,9820,11527,0,
1510,11331,11528,0,
11355,0,11529,2,
1076,11356,11530,1,
2274,11331,11531,0,
1547,11331,11532,0,
11128,0,11533,2,
1049,11357,11534,1,
11118,11127,11535,0,
1163,11358,11536,1,
11521,0,11537,2,
11359,0,11538,2,
11360,0,11539,2,
11534,0,11540,2,
11362,0,11541,2,
11364,11131,11542,0,
11365,0,11543,2,
11367,11137,11544,0,
11135,11366,11545,0,
11375,11372,11546,0,
11369,11147,11547,0,
11157,11376,11548,0,
11370,11148,11549,0,
11146,11368,11550,0,
11373,11153,11551,0,
11154,11374,11552,0,
11377,11159,11553,0,
11158,11378,11554,0,
11379,11160,11555,0,
11161,11380,11556,0,
11163,11382,11557,0,
11381,11162,11558,0,
11384,0,11559,2,
11383,0,11560,2,
11388,0,11561,2,
11389,0,11562,2,
11387,0,11563,2,
11391,0,11564,2,
11392,11184,11565,0,
11394,11188,11566,0,
11185,11393,11567,0,
11187,11395,11568,0,
11396,11186,11569,0,
11183,11390,11570,0,
11145,11375,11571,1,
11397,10573,11572,0,
11399,0,11573,2,
11398,0,11574,2,
11400,0,11575,2,
11207,11405,11576,0,
11205,11404,11577,0,
11406,11202,11578,0,
11204,11401,11579,0,
11403,11203,11580,0,
11402,11206,11581,0,
11409,0,11582,2,
11410,0,11583,2,
11408,0,11584,2,
10027,11413,11585,1,
11414,11222,11586,0,
11411,11221,11587,0,
11220,11412,11588,0,
11416,0,11589,2,
10324,11415,11590,1,
10994,11417,11591,1,
11419,0,11592,2,
11012,11421,11593,0,
11424,10455,11594,0,
11423,0,11595,2,
10487,11415,11596,0,
11422,0,11597,2,
11420,0,11598,2,
11427,0,11599,2,
10351,11433,11600,1,
11432,11247,11601,0,
11434,0,11602,2,
11429,11242,11603,0,
11243,11430,11604,0,
11436,0,11605,2,
11438,10747,11606,0,
10511,11433,11607,0,
11441,0,11608,2,
11443,0,11609,2,
11446,0,11610,2,
11448,10878,11611,0,
11449,11263,11612,0,
11262,11445,11613,0,
11447,0,11614,2,
11448,0,11615,2,
11451,0,11616,2,
9300,11454,11617,1,
11363,10703,11618,1,
11452,11453,11619,0,
11363,0,11620,2,
1037,11455,11621,1,
11457,10662,11622,1,
11454,0,11623,2,
11456,0,11624,2,
11462,0,11625,2,
11282,11460,11626,0,
11463,0,11627,2,
11459,0,11628,2,
11457,0,11629,2,
11464,11284,11630,0,
10971,11391,11631,1,
11466,0,11632,2,
1049,11465,11633,1,
11468,0,11634,2,
1076,11472,11635,1,
11471,0,11636,2,
11467,0,11637,2,
1034,11469,11638,1,
9678,11361,11639,1,
11470,0,11640,2,
11476,0,11641,2,
11361,0,11642,2,
11475,0,11643,2,
11474,0,11644,2,
9200,11477,11645,1,
9686,11473,11646,1,
11478,11299,11647,0,
11483,0,11648,2,
11481,0,11649,2,
11480,0,11650,2,
11482,0,11651,2,
7379,11490,11652,1,
11484,0,11653,2,
11485,0,11654,2,
11488,0,11655,2,
9403,11489,11656,1,
11490,7379,11657,0,
11486,11309,11658,0,
11491,1034,11659,0,
11493,0,11660,2,
11489,0,11661,2,
11494,0,11662,2,
11495,11313,11663,0,
9628,11497,11664,1,
11497,0,11665,2,
11499,11318,11666,0,
11500,0,11667,2,
8840,11500,11668,1,
11501,11324,11669,0,
11504,11328,11670,0,
7033,11508,11671,0,
11509,0,11672,2,
11506,0,11673,2,
11505,0,11674,2,
11507,11334,11675,0,
10253,11511,11676,1,
11511,0,11677,2,
11512,0,11678,2,
11514,0,11679,2,
7699,11514,11680,1,
11519,0,11681,2,
11520,0,11682,2,
11518,11348,11683,0,
11522,0,11684,2,
11516,0,11685,2,
11523,0,11686,2,
10914,11523,11687,1,
11525,0,11688,2,
11524,0,11689,2,
11526,11353,11690,1,
9136,11527,11691,1,
11528,0,11692,2,
11526,11353,11693,0,
11530,0,11694,2,
11531,0,11695,2,
11532,0,11696,2,
11535,0,11697,2,
10187,11438,11698,0,
10701,11697,11699,0,
11539,10551,11700,0,
11542,11132,11701,0,
11543,6712,11702,0,
11544,11545,11703,0,
11549,11548,11704,0,
11551,11552,11705,0,
11547,11550,11706,0,
11558,11557,11707,0,
11555,11556,11708,0,
11553,11554,11709,0,
11569,11568,11710,0,
11565,11567,11711,0,
11566,11570,11712,0,
11564,11189,11713,0,
11572,0,11714,2,
11571,0,11715,2,
11578,11579,11716,0,
11580,11577,11717,0,
11581,11576,11718,0,
11585,0,11719,2,
11587,11588,11720,0,
11586,0,11721,2,
11590,0,11722,2,
11589,8284,11723,0,
11591,10850,11724,1,
11595,10494,11725,0,
11597,10741,11726,0,
11596,0,11727,2,
10578,11594,11728,1,
11593,0,11729,2,
7937,11599,11730,0,
10497,11585,11731,0,
11591,10850,11732,0,
11698,10341,11733,0,
11595,10494,11734,1,
11602,8303,11735,0,
11600,0,11736,2,
11603,11604,11737,0,
11605,7146,11738,1,
11607,0,11739,2,
11605,7364,11740,0,
10758,11615,11741,0,
11612,11613,11742,0,
11611,0,11743,2,
8540,11610,11744,0,
11621,0,11745,2,
11620,10885,11746,0,
11617,0,11747,2,
11619,0,11748,2,
9300,11623,11749,0,
11628,10775,11750,0,
11630,11626,11751,0,
11625,8345,11752,0,
11629,10774,11753,0,
8938,11632,11754,0,
11633,0,11755,2,
11631,10224,11756,0,
11631,0,11757,2,
11638,0,11758,2,
11637,8351,11759,0,
11635,10668,11760,1,
9081,11634,11761,0,
11643,11479,11762,0,
11644,8356,11763,0,
11635,0,11764,2,
11645,0,11765,2,
11646,0,11766,2,
9950,11642,11767,0,
11649,10077,11768,0,
11648,8362,11769,0,
11652,0,11770,2,
11652,9299,11771,1,
9304,11654,11772,0,
11656,11657,11773,1,
11656,0,11774,2,
11657,0,11775,2,
11659,0,11776,2,
9403,11661,11777,0,
11660,1205,11778,1,
11662,8383,11779,0,
11660,1034,11780,0,
9800,11665,11781,0,
8840,11667,11782,0,
11668,0,11783,2,
11673,8062,11784,0,
1503,11671,11785,0,
11672,8065,11786,0,
11671,0,11787,2,
10412,11677,11788,0,
1550,11671,11789,0,
11678,7394,11790,1,
7394,11678,11791,0,
7699,11679,11792,0,
11680,0,11793,2,
11671,2924,11794,0,
11684,8092,11795,0,
11112,11686,11796,0,
11688,9816,11797,0,
11692,8110,11798,0,
11691,0,11799,2,
1510,11671,11800,0,
11693,0,11801,2,
11695,8131,11802,0,
2274,11671,11803,0,
11696,8137,11804,0,
8658,11541,11805,0,
1547,11671,11806,0,
10423,11699,11807,1,
10420,11700,11808,1,
1163,11805,11809,1,
11699,0,11810,2,
10450,11715,11811,1,
10436,11701,11812,1,
10436,11702,11813,1,
10436,11703,11814,1,
10436,11705,11815,1,
10436,11704,11816,1,
10436,11706,11817,1,
10436,11708,11818,1,
10436,11709,11819,1,
10436,11707,11820,1,
11713,0,11821,2,
10436,11710,11822,1,
10436,11711,11823,1,
10436,11712,11824,1,
10581,11715,11825,0,
10436,11717,11826,1,
10436,11716,11827,1,
10436,11718,11828,1,
11231,11721,11829,0,
10436,11720,11830,1,
10329,11719,11831,1,
7352,11723,11832,1,
11592,11722,11833,0,
11724,0,11834,2,
11726,0,11835,2,
11729,11727,11836,0,
11725,0,11837,2,
11728,10859,11838,1,
11728,0,11839,2,
11730,8284,11840,0,
11731,0,11841,2,
11240,11729,11842,0,
11734,10867,11843,1,
11431,11729,11844,0,
11733,0,11845,2,
11732,0,11846,2,
10869,11736,11847,0,
7939,11735,11848,1,
11032,11736,11849,0,
10436,11737,11850,1,
11734,10867,11851,0,
11738,0,11852,2,
11740,0,11853,2,
11275,11743,11854,0,
7585,11744,11855,1,
10436,11742,11856,1,
11461,11748,11857,0,
11746,0,11858,2,
11749,0,11859,2,
10667,11750,11860,0,
8581,11752,11861,0,
10436,11751,11862,1,
11753,0,11863,2,
11756,0,11864,2,
8327,11754,11865,1,
8586,11759,11866,0,
11757,10382,11867,0,
8577,11761,11868,1,
11647,11762,11869,0,
11767,0,11870,2,
11764,10777,11871,0,
8588,11763,11872,0,
10229,11768,11873,0,
8591,11769,11874,0,
11770,9399,11875,0,
11772,0,11876,2,
11774,11775,11877,0,
11777,0,11878,2,
11778,0,11879,2,
8612,11779,11880,0,
11780,0,11881,2,
11781,0,11882,2,
11782,0,11883,2,
11785,0,11884,2,
8407,11786,11885,0,
8406,11784,11886,0,
11787,7393,11887,0,
11788,0,11888,2,
11789,0,11889,2,
11790,10542,11890,1,
11790,10694,11891,0,
11791,0,11892,2,
11792,0,11893,2,
11787,7393,11894,0,
11794,0,11895,2,
8415,11795,11896,0,
11796,0,11897,2,
11797,9818,11898,0,
8419,11798,11899,0,
11800,0,11900,2,
11529,11801,11901,0,
8429,11802,11902,0,
11803,0,11903,2,
8431,11804,11904,0,
11806,0,11905,2,
1037,11904,11906,1,
11807,0,11907,2,
11808,0,11908,2,
1503,11868,11909,0,
11876,7982,11910,1,
11714,11821,11911,0,
11812,0,11912,2,
11813,10436,11913,0,
11813,10554,11914,1,
11814,0,11915,2,
11813,10436,11916,0,
11815,0,11917,2,
11816,0,11918,2,
11817,0,11919,2,
11819,0,11920,2,
11820,0,11921,2,
11818,0,11922,2,
11818,11387,11923,1,
11816,11384,11924,1,
11823,0,11925,2,
11822,0,11926,2,
11824,0,11927,2,
11811,0,11928,2,
11825,0,11929,2,
11828,0,11930,2,
11826,0,11931,2,
11827,0,11932,2,
11009,11810,11933,0,
11831,11829,11934,1,
11830,0,11935,2,
11829,0,11936,2,
11833,0,11937,2,
10821,11832,11938,0,
11834,10731,11939,0,
10636,11837,11940,0,
11838,0,11941,2,
11839,10859,11942,0,
11836,11431,11943,0,
11835,10861,11944,0,
11840,0,11945,2,
11831,11843,11946,0,
11842,0,11947,2,
11844,0,11948,2,
11255,11845,11949,0,
11850,11443,11950,1,
11850,0,11951,2,
1510,11848,11952,0,
11731,11843,11953,0,
11847,0,11954,2,
11808,10923,11955,1,
11851,0,11956,2,
11856,0,11957,2,
1510,11855,11958,0,
11856,11456,11959,1,
11857,0,11960,2,
1550,11848,11961,0,
1550,11855,11962,0,
1547,11848,11963,0,
1037,11861,11964,1,
1547,11855,11965,0,
11862,0,11966,2,
11862,11476,11967,1,
9686,11860,11968,1,
2274,11848,11969,0,
1547,11865,11970,0,
11867,0,11971,2,
1034,11866,11972,1,
1547,11868,11973,0,
1510,11865,11974,0,
1550,11868,11975,0,
1550,11865,11976,0,
11871,0,11977,2,
10271,11832,11978,0,
1049,11872,11979,1,
10436,11869,11980,1,
9200,11873,11981,1,
1503,11848,11982,0,
1076,11874,11983,1,
1510,11868,11984,0,
9524,11832,11985,0,
1503,11855,11986,0,
11875,0,11987,2,
11876,7982,11988,0,
2274,11855,11989,0,
11877,0,11990,2,
2274,11865,11991,0,
2924,11848,11992,0,
2274,11868,11993,0,
11880,0,11994,2,
9638,11882,11995,0,
2924,11855,11996,0,
8900,11883,11997,0,
11887,0,11998,2,
1034,11886,11999,1,
11884,8068,12000,0,
1049,11885,12001,1,
11889,8074,12002,0,
11891,0,12003,2,
11890,0,12004,2,
2274,11894,12005,0,
2924,11865,12006,0,
8088,11893,12007,0,
11895,8096,12008,0,
9346,11832,12009,0,
11896,0,12010,2,
2924,11868,12011,0,
9136,11898,12012,1,
1503,11894,12013,0,
1013,11899,12014,1,
11900,8112,12015,0,
11894,2924,12016,0,
8424,11901,12017,1,
1510,11894,12018,0,
11901,0,12019,2,
1076,11902,12020,1,
1550,11894,12021,0,
11903,8139,12022,0,
10423,11810,12023,0,
1547,11894,12024,0,
1503,11865,12025,0,
11905,8177,12026,0,
11676,11997,12027,1,
11914,11546,12028,1,
11120,11907,12029,0,
8457,12026,12030,0,
10925,11907,12031,1,
11979,0,12032,2,
11908,10923,12033,0,
11909,0,12034,2,
11913,11912,12035,0,
11914,0,12036,2,
11812,11916,12037,1,
11560,11919,12038,1,
11919,11560,12039,0,
11918,11559,12040,0,
11922,11563,12041,0,
11562,11921,12042,1,
11920,11561,12043,0,
11924,11923,12044,0,
11921,11562,12045,0,
11561,11920,12046,1,
11574,11927,12047,1,
11926,11573,12048,0,
11911,0,12049,2,
11575,11925,12050,1,
11925,11575,12051,0,
11927,11574,12052,0,
11573,11926,12053,1,
11930,11582,12054,0,
11583,11931,12055,1,
11584,11932,12056,1,
11932,11584,12057,0,
11931,11583,12058,0,
11582,11930,12059,1,
11933,0,12060,2,
11598,11935,12061,1,
11934,0,12062,2,
11935,11598,12063,0,
11937,11727,12064,0,
11938,0,12065,2,
11831,11936,12066,0,
11939,0,12067,2,
10865,11940,12068,1,
11943,0,12069,2,
11940,0,12070,2,
11944,0,12071,2,
11942,0,12072,2,
11945,7361,12073,0,
11947,11038,12074,0,
11833,11948,12075,0,
11946,11936,12076,0,
11947,11038,12077,1,
11949,11444,12078,0,
11951,11609,12079,0,
11953,0,12080,2,
11952,0,12081,2,
11954,11739,12082,0,
11955,0,12083,2,
11957,11624,12084,0,
11958,0,12085,2,
11961,0,12086,2,
11960,11072,12087,0,
11962,0,12088,2,
11963,0,12089,2,
11965,0,12090,2,
11911,11811,12091,1,
11968,0,12092,2,
11966,11641,12093,0,
11964,0,12094,2,
11969,0,12095,2,
11970,0,12096,2,
11974,0,12097,2,
11973,0,12098,2,
11975,0,12099,2,
11980,11484,12100,1,
11978,0,12101,2,
11972,0,12102,2,
11976,0,12103,2,
11980,0,12104,2,
11945,7361,12105,1,
11981,0,12106,2,
11983,0,12107,2,
11982,0,12108,2,
11983,10781,12109,1,
11984,0,12110,2,
11985,0,12111,2,
11986,0,12112,2,
1547,11910,12113,0,
11988,0,12114,2,
1510,11910,12115,0,
1550,11910,12116,0,
11989,0,12117,2,
11878,11990,12118,0,
11991,0,12119,2,
11992,0,12120,2,
11994,1205,12121,1,
11993,0,12122,2,
11994,1034,12123,0,
2274,11910,12124,0,
11996,0,12125,2,
11668,11995,12126,1,
11995,0,12127,2,
11997,0,12128,2,
2924,11910,12129,0,
12001,0,12130,2,
1550,11998,12131,0,
8408,12000,12132,0,
11999,0,12133,2,
1503,11998,12134,0,
8409,12002,12135,0,
11892,12003,12136,0,
12006,0,12137,2,
12005,0,12138,2,
12007,0,12139,2,
11687,12007,12140,1,
8416,12008,12141,0,
12009,0,12142,2,
2924,11998,12143,0,
12011,0,12144,2,
12013,0,12145,2,
12012,0,12146,2,
12014,0,12147,2,
8421,12015,12148,0,
1510,11998,12149,0,
12016,0,12150,2,
12017,0,12151,2,
12018,0,12152,2,
8424,12019,12153,0,
12020,0,12154,2,
12021,0,12155,2,
2274,11998,12156,0,
8433,12022,12157,0,
11906,0,12158,2,
12023,0,12159,2,
1547,11998,12160,0,
12024,0,12161,2,
12025,0,12162,2,
1503,11910,12163,0,
12162,7807,12164,0,
12163,0,12165,2,
12035,11371,12166,0,
12028,0,12167,2,
11136,12035,12168,1,
11546,12036,12169,0,
12037,11386,12170,1,
12037,0,12171,2,
12038,0,12172,2,
12040,11923,12173,0,
12039,0,12174,2,
12041,0,12175,2,
12043,12042,12176,0,
12045,0,12177,2,
11123,12028,12178,1,
11928,12049,12179,0,
12048,12047,12180,0,
12051,0,12181,2,
12052,0,12182,2,
12053,12047,12183,0,
12040,0,12184,2,
12054,12055,12185,0,
12058,0,12186,2,
12057,0,12187,2,
12043,0,12188,2,
12059,12055,12189,0,
11428,12060,12190,0,
10858,12062,12191,1,
12064,0,12192,2,
12066,0,12193,2,
12065,11435,12194,0,
12063,0,12195,2,
11026,12062,12196,0,
12048,0,12197,2,
12068,0,12198,2,
11032,12070,12199,0,
11606,12071,12200,0,
12072,11846,12201,0,
10872,12068,12202,0,
12073,0,12203,2,
11849,12070,12204,0,
12075,0,12205,2,
10877,12077,12206,0,
12076,0,12207,2,
12074,0,12208,2,
12077,0,12209,2,
12081,7953,12210,0,
12079,0,12211,2,
12054,0,12212,2,
12085,8346,12213,0,
12084,0,12214,2,
12087,0,12215,2,
12086,7975,12216,0,
12088,8353,12217,0,
12033,0,12218,2,
12089,7981,12219,0,
12093,0,12220,2,
12091,10227,12221,0,
12090,8358,12222,0,
12091,0,12223,2,
12096,7617,12224,0,
12095,7990,12225,0,
12098,8372,12226,0,
12097,7619,12227,0,
9524,12105,12228,0,
12104,11653,12229,0,
10271,12105,12230,0,
12099,8373,12231,0,
12101,10780,12232,0,
12103,7620,12233,0,
12107,10900,12234,0,
12110,8378,12235,0,
12108,8004,12236,0,
12111,10083,12237,0,
10821,12105,12238,0,
12112,8381,12239,0,
12113,0,12240,2,
12114,7991,12241,0,
12115,0,12242,2,
12116,0,12243,2,
12117,8387,12244,0,
11664,12118,12245,1,
12118,0,12246,2,
12119,7648,12247,0,
12122,8395,12248,0,
12120,8038,12249,0,
12121,0,12250,2,
12123,0,12251,2,
12124,0,12252,2,
11783,12127,12253,0,
12125,8403,12254,0,
11676,12128,12255,0,
12027,0,12256,2,
12129,0,12257,2,
1049,12132,12258,1,
12131,0,12259,2,
12134,0,12260,2,
1034,12135,12261,1,
11680,12136,12262,1,
12136,0,12263,2,
12137,7712,12264,0,
11687,12139,12265,0,
8097,12138,12266,0,
12140,0,12267,2,
12141,0,12268,2,
12142,9815,12269,0,
12143,0,12270,2,
9346,12105,12271,0,
12144,8418,12272,0,
8111,12145,12273,0,
1013,12148,12274,1,
12149,0,12275,2,
8125,12150,12276,0,
8130,12152,12277,0,
12153,0,12278,2,
8138,12155,12279,0,
12156,0,12280,2,
1076,12157,12281,1,
12031,0,12282,2,
10809,12159,12283,0,
8155,12161,12284,0,
12034,8862,12285,0,
12160,0,12286,2,
12029,0,12287,2,
1037,12030,12288,1,
10848,12283,12289,1,
12033,12282,12290,0,
12288,0,12291,2,
8161,12286,12292,0,
1192,12285,12293,1,
11164,12166,12294,1,
12166,10950,12295,0,
11385,12167,12296,0,
12168,11917,12297,1,
12169,0,12298,2,
12168,0,12299,2,
12171,11386,12300,0,
12170,0,12301,2,
12172,12174,12302,0,
12173,0,12303,2,
12176,0,12304,2,
10580,12178,12305,0,
10453,12178,12306,1,
12180,0,12307,2,
12179,0,12308,2,
12183,12056,12309,0,
12185,0,12310,2,
12189,12061,12311,0,
12191,0,12312,2,
12190,0,12313,2,
11941,12192,12314,0,
11601,12194,12315,0,
12193,11841,12316,0,
12196,0,12317,2,
12200,0,12318,2,
12199,0,12319,2,
10751,12198,12320,1,
12202,0,12321,2,
7952,12203,12322,0,
12204,0,12323,2,
12206,0,12324,2,
12208,11223,12325,0,
12207,12080,12326,0,
12205,11727,12327,0,
8569,12210,12328,0,
10759,12209,12329,0,
8582,12213,12330,0,
8585,12217,12331,0,
8584,12216,12332,0,
12215,11864,12333,0,
8587,12219,12334,0,
12221,0,12335,2,
12223,10384,12336,0,
8593,12222,12337,0,
8601,12225,12338,0,
8832,12224,12339,0,
8833,12226,12340,0,
8834,12227,12341,0,
12229,0,12342,2,
8836,12233,12343,0,
8835,12231,12344,0,
12230,0,12345,2,
12228,0,12346,2,
10674,12232,12347,0,
8837,12235,12348,0,
8606,12236,12349,0,
12234,0,12350,2,
10236,12237,12351,0,
12238,0,12352,2,
8607,12239,12353,0,
12242,8751,12354,0,
7605,12241,12355,1,
12240,8750,12356,0,
8613,12244,12357,0,
12243,8752,12358,0,
12245,0,12359,2,
11664,12246,12360,0,
8838,12247,12361,0,
8839,12248,12362,0,
8617,12249,12363,0,
12252,8756,12364,0,
8620,12254,12365,0,
12253,0,12366,2,
12255,0,12367,2,
12257,8757,12368,0,
8085,12259,12369,0,
12258,0,12370,2,
8086,12260,12371,0,
12261,0,12372,2,
11793,12263,12373,0,
1076,12266,12374,1,
8842,12264,12375,0,
12265,0,12376,2,
12269,9819,12377,0,
12271,0,12378,2,
8103,12270,12379,0,
8843,12272,12380,0,
1049,12273,12381,1,
12274,0,12382,2,
8126,12275,12383,0,
1013,12277,12384,1,
1034,12279,12385,1,
8148,12280,12386,0,
12083,12282,12387,0,
12281,0,12388,2,
10863,12190,12389,1,
8782,12164,12390,0,
8783,12165,12391,0,
1037,12284,12392,1,
12294,11915,12393,1,
12289,11538,12394,1,
1192,12391,12395,1,
1503,12355,12396,0,
12290,0,12397,2,
12392,0,12398,2,
9686,12347,12399,1,
12294,0,12400,2,
12296,0,12401,2,
12295,0,12402,2,
12297,0,12403,2,
12299,11917,12404,0,
12302,0,12405,2,
12303,12175,12406,0,
12304,12177,12407,0,
12305,0,12408,2,
12307,12182,12409,0,
12300,0,12410,2,
12310,12186,12411,0,
12067,12312,12412,0,
10863,12313,12413,0,
10436,12315,12414,1,
12314,12069,12415,0,
12316,0,12416,2,
12316,11843,12417,1,
12201,12317,12418,0,
12320,0,12419,2,
12078,12318,12420,0,
12319,11039,12421,0,
1049,12390,12422,1,
8411,12368,12423,0,
11956,12321,12424,0,
12322,0,12425,2,
12082,12323,12426,0,
12325,11590,12427,0,
12327,11838,12428,0,
11741,12324,12429,0,
12329,0,12430,2,
1013,12328,12431,1,
12306,0,12432,2,
1013,12330,12433,1,
12308,11929,12434,0,
12333,0,12435,2,
1034,12332,12436,1,
1034,12331,12437,1,
1037,12334,12438,1,
1037,12337,12439,1,
1037,12339,12440,1,
1076,12338,12441,1,
1037,12340,12442,1,
1013,12341,12443,1,
1034,12343,12444,1,
12346,10084,12445,0,
1034,12344,12446,1,
12345,10782,12447,0,
1049,12349,12448,1,
1013,12348,12449,1,
9200,12351,12450,1,
12352,11496,12451,0,
1049,12353,12452,1,
1510,12355,12453,0,
8388,12354,12454,0,
8389,12356,12455,0,
1550,12355,12456,0,
8390,12358,12457,0,
1547,12355,12458,0,
1076,12357,12459,1,
12360,0,12460,2,
1076,12361,12461,1,
1076,12362,12462,1,
12363,0,12463,2,
8405,12364,12464,0,
12365,0,12465,2,
11888,12367,12466,0,
12369,8087,12467,0,
12371,8089,12468,0,
2274,12355,12469,0,
12373,0,12470,2,
12374,0,12471,2,
11897,12376,12472,0,
12375,0,12473,2,
9136,12377,12474,1,
12379,8107,12475,0,
12378,9821,12476,0,
12380,0,12477,2,
12381,0,12478,2,
12383,8127,12479,0,
12384,0,12480,2,
12385,0,12481,2,
12386,8152,12482,0,
12292,7832,12483,0,
2924,12355,12484,0,
11536,12389,12485,1,
12289,0,12486,2,
12389,0,12487,2,
1013,12479,12488,1,
1049,12468,12489,1,
12486,11538,12490,0,
12484,0,12491,2,
12485,0,12492,2,
12394,0,12493,2,
12397,12287,12494,0,
12422,0,12495,2,
12400,11915,12496,0,
12298,12401,12497,0,
12301,12403,12498,0,
12300,12403,12499,0,
12404,0,12500,2,
12406,12174,12501,0,
12046,12405,12502,0,
12407,0,12503,2,
12393,0,12504,2,
12393,11122,12505,1,
12306,12408,12506,0,
11929,12408,12507,0,
12409,0,12508,2,
12411,0,12509,2,
12413,0,12510,2,
12412,0,12511,2,
12416,11843,12512,0,
12415,0,12513,2,
12417,11608,12514,1,
12414,0,12515,2,
12420,0,12516,2,
12419,12321,12517,0,
12487,11536,12518,0,
11600,12421,12519,1,
12417,0,12520,2,
12326,12424,12521,0,
12425,8730,12522,0,
12426,0,12523,2,
12427,0,12524,2,
12428,0,12525,2,
12429,0,12526,2,
12431,0,12527,2,
11928,12432,12528,0,
11825,12432,12529,0,
12433,0,12530,2,
12306,12434,12531,1,
12437,0,12532,2,
12436,0,12533,2,
12435,11971,12534,0,
12438,0,12535,2,
12439,0,12536,2,
12440,0,12537,2,
12441,0,12538,2,
12442,0,12539,2,
12443,0,12540,2,
12399,0,12541,2,
10675,12447,12542,0,
12425,8730,12543,1,
12441,11492,12544,1,
12446,0,12545,2,
10237,12445,12546,0,
12444,0,12547,2,
12448,0,12548,2,
12449,0,12549,2,
12450,0,12550,2,
11663,12451,12551,0,
12452,0,12552,2,
12456,0,12553,2,
12453,0,12554,2,
1013,12454,12555,1,
1037,12455,12556,1,
12458,0,12557,2,
1034,12457,12558,1,
12459,0,12559,2,
12461,0,12560,2,
12463,1427,12561,1,
12462,0,12562,2,
12463,1427,12563,0,
1076,12464,12564,1,
11890,12466,12565,1,
12466,0,12566,2,
12423,0,12567,2,
1013,12423,12568,1,
1034,12467,12569,1,
12469,0,12570,2,
11690,12472,12571,1,
12474,0,12572,2,
12476,9822,12573,0,
12472,0,12574,2,
12276,12475,12575,1,
12475,12276,12576,0,
1076,12482,12577,1,
1203,12483,12578,1,
12396,0,12579,2,
12490,0,12580,2,
12494,0,12581,2,
12577,0,12582,2,
12579,8178,12583,0,
12496,0,12584,2,
12497,0,12585,2,
12499,0,12586,2,
12502,12042,12587,0,
12050,12503,12588,0,
12170,12497,12589,1,
12504,11407,12590,0,
12507,12308,12591,0,
12506,0,12592,2,
12056,12508,12593,0,
12061,12509,12594,0,
11259,12510,12595,0,
12511,12317,12596,0,
12512,0,12597,2,
12514,0,12598,2,
12418,12513,12599,0,
11852,12515,12600,0,
12072,12513,12601,0,
12519,11053,12602,1,
12517,0,12603,2,
12324,12516,12604,0,
12520,11608,12605,0,
12522,0,12606,2,
12521,0,12607,2,
12201,12513,12608,0,
12523,11618,12609,0,
12525,12513,12610,0,
12430,12526,12611,0,
12519,11053,12612,0,
12524,12205,12613,0,
12523,11618,12614,1,
12528,12049,12615,0,
12529,0,12616,2,
10228,12531,12617,0,
12531,0,12618,2,
12534,0,12619,2,
11738,12515,12620,1,
12538,11492,12621,0,
9200,12546,12622,1,
10271,12543,12623,0,
9686,12542,12624,1,
9524,12543,12625,0,
10436,12551,12626,1,
10821,12543,12627,0,
12544,0,12628,2,
12554,8034,12629,0,
12555,0,12630,2,
12553,8035,12631,0,
12556,0,12632,2,
12557,8049,12633,0,
12558,0,12634,2,
12561,12562,12635,1,
12563,0,12636,2,
12561,12562,12637,0,
12564,0,12638,2,
12004,12566,12639,0,
12568,10804,12640,0,
1163,12567,12641,0,
12569,0,12642,2,
12570,8098,12643,0,
9136,12573,12644,1,
9346,12543,12645,0,
12571,0,12646,2,
11690,12574,12647,0,
12488,0,12648,2,
10696,12568,12649,1,
12387,12493,12650,0,
12518,0,12651,2,
12489,0,12652,2,
12491,7825,12653,0,
12493,12581,12654,0,
11046,12595,12655,1,
12402,12584,12656,0,
12498,12585,12657,0,
12500,12586,12658,0,
12587,12050,12659,0,
12588,0,12660,2,
12590,0,12661,2,
12589,10595,12662,1,
12591,0,12663,2,
12301,12585,12664,0,
12589,10595,12665,0,
12593,0,12666,2,
12594,0,12667,2,
12596,0,12668,2,
12595,0,12669,2,
12599,0,12670,2,
12597,11956,12671,0,
12600,0,12672,2,
12601,0,12673,2,
12605,0,12674,2,
12604,11854,12675,0,
12603,12602,12676,0,
12609,0,12677,2,
8897,12606,12678,0,
12608,0,12679,2,
12612,0,12680,2,
12610,0,12681,2,
12613,11066,12682,0,
12613,0,12683,2,
12601,11724,12684,1,
12614,11636,12685,0,
12614,11636,12686,1,
12610,11640,12687,0,
12615,0,12688,2,
12617,0,12689,2,
12616,12408,12690,0,
12618,10386,12691,0,
12621,0,12692,2,
12620,0,12693,2,
12623,0,12694,2,
12624,0,12695,2,
12622,0,12696,2,
12625,0,12697,2,
12626,0,12698,2,
12627,0,12699,2,
8396,12631,12700,0,
8393,12629,12701,0,
8397,12633,12702,0,
1428,12636,12703,0,
12637,0,12704,2,
12639,0,12705,2,
12640,0,12706,2,
12641,0,12707,2,
8417,12643,12708,0,
12645,0,12709,2,
12647,0,12710,2,
12649,12281,12711,1,
12649,0,12712,2,
8202,12583,12713,0,
8450,12653,12714,0,
12644,0,12715,2,
11924,12656,12716,1,
12654,0,12717,2,
12656,0,12718,2,
12657,0,12719,2,
12660,12181,12720,0,
12592,12662,12721,0,
12664,0,12722,2,
12665,0,12723,2,
12666,12187,12724,0,
12667,12195,12725,0,
11809,12655,12726,1,
11046,12669,12727,0,
12714,0,12728,2,
12668,12598,12729,0,
12671,0,12730,2,
11853,12672,12731,0,
11724,12673,12732,0,
12676,12607,12733,0,
12675,0,12734,2,
12412,12679,12735,0,
12678,0,12736,2,
11858,12677,12737,0,
11470,12681,12738,0,
10892,12683,12739,0,
12682,0,12740,2,
12684,0,12741,2,
12662,0,12742,2,
12685,0,12743,2,
12687,0,12744,2,
11638,12684,12745,0,
12336,12689,12746,0,
12689,12335,12747,0,
12691,0,12748,2,
11776,12692,12749,0,
12694,10783,12750,0,
12697,10089,12751,0,
12699,11498,12752,0,
1034,12700,12753,1,
1013,12701,12754,1,
1037,12702,12755,1,
12465,12703,12756,1,
12707,12706,12757,0,
1076,12708,12758,1,
12703,12465,12759,0,
12473,12703,12760,1,
12703,12473,12761,0,
1049,12703,12762,1,
12703,0,12763,2,
12709,9823,12764,0,
12712,12388,12765,0,
1049,12713,12766,1,
12655,0,12767,2,
12726,0,12768,2,
12717,12580,12769,0,
12766,0,12770,2,
11533,12757,12771,1,
12765,0,12772,2,
12757,11533,12773,0,
12737,0,12774,2,
12044,12718,12775,0,
12658,12719,12776,0,
11924,12718,12777,0,
12716,0,12778,2,
12716,11124,12779,1,
12721,12663,12780,0,
12722,12410,12781,0,
12729,12670,12782,0,
12767,11809,12783,0,
12727,0,12784,2,
12731,0,12785,2,
12730,12419,12786,1,
12730,12320,12787,0,
12732,0,12788,2,
12733,0,12789,2,
12611,12734,12790,0,
12736,8739,12791,0,
11955,12737,12792,1,
12735,0,12793,2,
12738,0,12794,2,
12739,0,12795,2,
12741,11758,12796,0,
12736,8739,12797,1,
12742,12688,12798,0,
12745,0,12799,2,
12746,0,12800,2,
12747,12619,12801,0,
12749,0,12802,2,
11778,12749,12803,1,
10678,12750,12804,0,
10243,12751,12805,0,
11666,12752,12806,0,
12754,0,12807,2,
12753,0,12808,2,
12755,0,12809,2,
12756,12638,12810,1,
12757,0,12811,2,
12010,12757,12812,1,
12757,12010,12813,0,
12756,12638,12814,0,
12758,0,12815,2,
12760,0,12816,2,
12759,0,12817,2,
12761,0,12818,2,
12762,12380,12819,1,
1192,12763,12820,0,
12762,12477,12821,0,
12764,9824,12822,0,
12728,12423,12823,1,
12423,12728,12824,0,
12773,0,12825,2,
12768,12492,12826,0,
12786,11745,12827,1,
12775,0,12828,2,
12776,0,12829,2,
12777,0,12830,2,
12778,11418,12831,0,
12780,0,12832,2,
12297,12781,12833,1,
12518,12768,12834,0,
12783,0,12835,2,
11458,12784,12836,0,
12782,0,12837,2,
12787,0,12838,2,
11747,12785,12839,0,
12191,12788,12840,0,
12786,0,12841,2,
12083,12774,12842,0,
12790,0,12843,2,
12680,12789,12844,0,
12514,12793,12845,0,
12791,0,12846,2,
12792,11755,12847,1,
12792,11755,12848,0,
12794,12795,12849,0,
12796,0,12850,2,
10271,12797,12851,0,
12798,12690,12852,0,
12801,0,12853,2,
12800,12748,12854,0,
12785,11747,12855,1,
11879,12802,12856,0,
12803,0,12857,2,
9686,12804,12858,1,
10821,12797,12859,0,
9524,12797,12860,0,
9200,12805,12861,1,
10436,12806,12862,1,
12559,12803,12863,0,
12811,1293,12864,1,
1293,12811,12865,0,
12471,12812,12866,0,
12814,0,12867,2,
12813,0,12868,2,
12758,12816,12869,1,
12815,12760,12870,0,
12821,0,12871,2,
12820,0,12872,2,
12819,0,12873,2,
9346,12797,12874,0,
9136,12822,12875,1,
12387,12774,12876,0,
12771,0,12877,2,
12812,0,12878,2,
12650,12774,12879,0,
12824,0,12880,2,
12582,12771,12881,0,
12577,12877,12882,1,
12723,12832,12883,0,
12881,0,12884,2,
12674,12837,12885,0,
12501,12828,12886,0,
12505,12829,12887,0,
12406,12828,12888,0,
12830,12184,12889,0,
12829,12505,12890,1,
12831,0,12891,2,
10627,12833,12892,0,
12833,0,12893,2,
12834,0,12894,2,
12836,0,12895,2,
11622,12836,12896,1,
12827,0,12897,2,
12839,0,12898,2,
12838,12321,12899,0,
12840,11846,12900,0,
12841,11745,12901,0,
12842,0,12902,2,
12844,0,12903,2,
12843,12740,12904,0,
12685,12847,12905,0,
12686,12847,12906,0,
8898,12846,12907,0,
12845,12317,12908,0,
12848,0,12909,2,
12850,12744,12910,0,
12851,0,12911,2,
12686,12844,12912,1,
12852,0,12913,2,
12854,12853,12914,0,
12855,0,12915,2,
12856,0,12916,2,
12698,12855,12917,0,
12459,12857,12918,1,
12858,0,12919,2,
12859,0,12920,2,
12861,0,12921,2,
12860,0,12922,2,
12862,0,12923,2,
12863,0,12924,2,
12864,12268,12925,0,
12866,0,12926,2,
12865,0,12927,2,
12817,12867,12928,0,
12141,12864,12929,1,
12870,0,12930,2,
12872,12871,12931,0,
12874,0,12932,2,
12875,0,12933,2,
12879,0,12934,2,
12374,12878,12935,1,
12876,0,12936,2,
10485,12893,12937,1,
12825,12884,12938,0,
12769,12934,12939,0,
12886,0,12940,2,
12887,0,12941,2,
12888,0,12942,2,
11923,12889,12943,1,
12890,10626,12944,1,
12883,0,12945,2,
12890,10626,12946,0,
12835,12894,12947,0,
12885,0,12948,2,
12896,12527,12949,1,
11622,12895,12950,0,
12602,12899,12951,1,
11859,12898,12952,0,
12896,0,12953,2,
12900,0,12954,2,
12901,0,12955,2,
12686,12903,12956,0,
12902,12218,12957,0,
12904,0,12958,2,
12907,0,12959,2,
12908,0,12960,2,
12905,0,12961,2,
12906,12903,12962,0,
12827,12885,12963,1,
12912,0,12964,2,
12911,10779,12965,0,
12912,12535,12966,1,
12913,12832,12967,0,
12494,12936,12968,0,
12914,0,12969,2,
12626,12915,12970,1,
11881,12916,12971,0,
12918,12630,12972,1,
12917,0,12973,2,
12922,10092,12974,0,
12918,12630,12975,0,
12920,11502,12976,0,
12925,0,12977,2,
12868,12926,12978,0,
12869,12928,12979,1,
12929,0,12980,2,
12818,12930,12981,0,
12928,0,12982,2,
12931,0,12983,2,
12932,9825,12984,0,
12892,0,12985,2,
12938,12935,12986,1,
12031,12957,12987,1,
12939,0,12988,2,
12659,12940,12989,0,
12661,12941,12990,0,
12942,12172,12991,1,
12587,12940,12992,0,
12038,12942,12993,0,
12502,12940,12994,0,
12943,0,12995,2,
12943,11425,12996,1,
12944,12945,12997,0,
12892,12944,12998,0,
12946,0,12999,2,
12948,12897,13000,0,
12950,0,13001,2,
12949,0,13002,2,
12951,0,13003,2,
12952,0,13004,2,
12953,12527,13005,0,
12954,12793,13006,0,
12849,12958,13007,0,
12956,0,13008,2,
12960,12837,13009,0,
12962,0,13010,2,
12961,12909,13011,0,
12959,7995,13012,1,
12959,7995,13013,0,
12963,12532,13014,0,
10673,12965,13015,0,
12964,12535,13016,0,
12966,0,13017,2,
12963,0,13018,2,
12967,10234,13019,0,
12967,0,13020,2,
12937,12883,13021,1,
12394,12968,13022,1,
12485,12939,13023,1,
12121,12971,13024,1,
12971,0,13025,2,
10248,12974,13026,0,
11669,12976,13027,0,
12975,0,13028,2,
12938,0,13029,2,
12927,12977,13030,0,
12929,12978,13031,1,
12978,0,13032,2,
12819,12981,13033,1,
12979,0,13034,2,
12869,12982,13035,0,
12981,0,13036,2,
12983,12423,13037,1,
12984,9832,13038,0,
12423,12983,13039,0,
12945,12937,13040,0,
11964,13003,13041,1,
12492,12988,13042,0,
12989,0,13043,2,
12990,0,13044,2,
12991,11426,13045,1,
12995,11425,13046,0,
12994,0,13047,2,
12991,0,13048,2,
12996,0,13049,2,
12993,0,13050,2,
12992,0,13051,2,
12997,12937,13052,0,
12998,0,13053,2,
12826,12988,13054,0,
13000,0,13055,2,
11863,13001,13056,0,
13004,11639,13057,0,
13005,0,13058,2,
13006,0,13059,2,
13008,12743,13060,0,
12094,13003,13061,0,
13007,0,13062,2,
12987,0,13063,2,
10821,13012,13064,0,
13009,12533,13065,0,
13013,0,13066,2,
13011,13010,13067,0,
13014,0,13068,2,
13006,12102,13069,0,
13009,0,13070,2,
13016,0,13071,2,
9686,13015,13072,1,
13019,0,13073,2,
12437,13018,13074,0,
13020,10392,13075,0,
13022,12548,13076,0,
13021,0,13077,2,
13023,12552,13078,1,
13004,11639,13079,1,
10271,13012,13080,0,
13024,0,13081,2,
12250,13025,13082,0,
12560,13024,13083,0,
10436,13027,13084,1,
9524,13012,13085,0,
9200,13026,13086,1,
12924,13028,13087,0,
12935,13029,13088,0,
13030,0,13089,2,
12980,13032,13090,0,
13033,0,13091,2,
12873,13036,13092,0,
10918,13033,13093,0,
13035,0,13094,2,
9346,13012,13095,0,
9136,13038,13096,1,
13039,0,13097,2,
13023,12552,13098,0,
13022,12548,13099,1,
13031,0,13100,2,
13040,0,13101,2,
13011,13010,13102,0,
12032,12987,13103,0,
12986,0,13104,2,
13103,0,13105,2,
12955,13055,13106,0,
13042,0,13107,2,
13096,0,13108,2,
12720,13043,13109,0,
12779,13044,13110,0,
13045,0,13111,2,
13047,12188,13112,0,
13048,11426,13113,0,
12407,13051,13114,0,
13050,12174,13115,0,
12999,13053,13116,0,
13052,0,13117,2,
13044,12779,13118,1,
13101,12985,13119,0,
13046,0,13120,2,
13054,0,13121,2,
11760,13056,13122,1,
13056,0,13123,2,
13041,0,13124,2,
13057,0,13125,2,
11972,13059,13126,0,
12910,13062,13127,0,
11979,13063,13128,1,
13061,0,13129,2,
12847,13060,13130,1,
13064,0,13131,2,
8602,13066,13132,0,
13065,0,13133,2,
13069,0,13134,2,
12436,13068,13135,0,
13072,0,13136,2,
13061,13017,13137,0,
13074,0,13138,2,
12969,13073,13139,0,
13075,0,13140,2,
13076,0,13141,2,
13077,10240,13142,0,
13077,0,13143,2,
13079,0,13144,2,
12461,13081,13145,1,
13080,0,13146,2,
13082,0,13147,2,
12923,13079,13148,0,
13083,0,13149,2,
13086,0,13150,2,
13085,0,13151,2,
13087,0,13152,2,
13084,0,13153,2,
13088,0,13154,2,
13089,12475,13155,1,
13090,0,13156,2,
10806,13091,13157,1,
13093,0,13158,2,
13092,0,13159,2,
12475,13089,13160,0,
13095,0,13161,2,
13076,13078,13162,0,
13098,0,13163,2,
13102,0,13164,2,
13078,13099,13165,0,
13164,13128,13166,0,
12651,13107,13167,0,
13116,13117,13168,0,
13118,10651,13169,1,
13109,0,13170,2,
13110,0,13171,2,
13049,13111,13172,0,
13046,13111,13173,0,
13113,0,13174,2,
12042,13112,13175,1,
12046,13115,13176,1,
12053,13109,13177,1,
12050,13114,13178,1,
13118,10651,13179,0,
12947,13121,13180,0,
13106,0,13181,2,
11760,13123,13182,0,
13122,12530,13183,1,
13122,0,13184,2,
11870,13125,13185,0,
13126,0,13186,2,
13130,0,13187,2,
13128,13067,13188,1,
13127,0,13189,2,
13132,0,13190,2,
13068,13133,13191,0,
13131,11487,13192,0,
13106,13041,13193,1,
13124,13017,13194,0,
12439,13130,13195,0,
13135,13070,13196,0,
13137,0,13197,2,
13139,0,13198,2,
13142,0,13199,2,
12944,13119,13200,1,
13143,10397,13201,0,
12862,13144,13202,1,
13146,10788,13203,0,
12807,13145,13204,0,
13145,0,13205,2,
13148,0,13206,2,
12251,13147,13207,0,
13151,10100,13208,0,
7728,13155,13209,0,
13157,0,13210,2,
13160,0,13211,2,
13159,13158,13212,0,
12382,13157,13213,0,
13161,9828,13214,0,
13155,0,13215,2,
13162,0,13216,2,
13166,0,13217,2,
12726,13167,13218,1,
13216,13163,13219,0,
12949,13180,13220,1,
12274,13210,13221,1,
12309,13170,13222,0,
12891,13171,13223,0,
13173,0,13224,2,
13177,11440,13225,1,
12053,13170,13226,0,
12183,13170,13227,0,
13176,0,13228,2,
13178,0,13229,2,
13175,11439,13230,1,
13176,11437,13231,1,
13177,0,13232,2,
13175,0,13233,2,
13168,0,13234,2,
13178,11442,13235,1,
13179,0,13236,2,
13180,0,13237,2,
13181,13124,13238,0,
13182,0,13239,2,
13183,0,13240,2,
13184,12530,13241,0,
13185,0,13242,2,
13186,12799,13243,0,
12536,13187,13244,0,
13188,0,13245,2,
13190,8010,13246,0,
13193,0,13247,2,
11658,13192,13248,0,
13191,13134,13249,0,
13195,0,13250,2,
13194,13181,13251,0,
13196,0,13252,2,
12439,13187,13253,1,
13193,12547,13254,0,
13198,13140,13255,0,
13201,0,13256,2,
13168,13169,13257,1,
13200,0,13258,2,
13190,8010,13259,1,
10687,13203,13260,0,
13204,0,13261,2,
12754,13205,13262,1,
12635,13207,13263,1,
13207,0,13264,2,
10257,13208,13265,0,
13209,0,13266,2,
13037,13212,13267,1,
13213,0,13268,2,
13214,9831,13269,0,
13212,0,13270,2,
12293,13220,13271,1,
12495,13218,13272,0,
13222,0,13273,2,
13223,0,13274,2,
13224,13174,13275,0,
13226,0,13276,2,
13229,11442,13277,0,
13231,0,13278,2,
13227,0,13279,2,
13228,11437,13280,0,
13225,0,13281,2,
13230,0,13282,2,
13233,11439,13283,0,
13232,11440,13284,0,
12996,13223,13285,1,
13169,13234,13286,0,
13217,13105,13287,0,
13235,0,13288,2,
13002,13237,13289,0,
11977,13239,13290,0,
13238,0,13291,2,
13242,11771,13292,0,
13241,0,13293,2,
13243,13189,13294,0,
12537,13245,13295,0,
12440,13245,13296,1,
13244,0,13297,2,
13246,0,13298,2,
10436,13248,13299,1,
12444,13247,13300,0,
13251,0,13301,2,
13253,0,13302,2,
13254,0,13303,2,
13255,0,13304,2,
13258,10244,13305,0,
13257,0,13306,2,
13218,12495,13307,1,
10271,13259,13308,0,
13242,11771,13309,1,
13258,0,13310,2,
13149,13261,13311,0,
9686,13260,13312,1,
13262,13087,13313,1,
12635,13264,13314,0,
13263,0,13315,2,
13262,13152,13316,0,
9200,13265,13317,1,
9524,13259,13318,0,
10821,13259,13319,0,
7728,13266,13320,0,
9346,13259,13321,0,
13267,0,13322,2,
9136,13269,13323,1,
13037,13270,13324,0,
13220,12293,13325,0,
11530,13322,13326,1,
13325,0,13327,2,
13272,13271,13328,0,
13285,0,13329,2,
12724,13273,13330,0,
13172,13274,13331,0,
12409,13279,13332,0,
13278,13282,13333,0,
13276,12197,13334,0,
13277,13281,13335,0,
13280,13282,13336,0,
13284,0,13337,2,
13283,0,13338,2,
10654,13285,13339,0,
13286,0,13340,2,
13049,13274,13341,0,
13280,0,13342,2,
13288,13281,13343,0,
13289,0,13344,2,
13277,0,13345,2,
13291,13129,13346,0,
13290,0,13347,2,
12109,13290,13348,1,
13287,13099,13349,1,
13292,0,13350,2,
13294,0,13351,2,
13295,0,13352,2,
13296,0,13353,2,
13071,13297,13354,0,
13299,0,13355,2,
13300,0,13356,2,
13287,0,13357,2,
8610,13298,13358,0,
13301,13197,13359,0,
13304,13199,13360,0,
13306,0,13361,2,
13305,0,13362,2,
13309,0,13363,2,
13308,0,13364,2,
13310,10407,13365,0,
13306,10787,13366,0,
13313,0,13367,2,
13263,13311,13368,1,
13311,0,13369,2,
13314,0,13370,2,
13312,0,13371,2,
13316,0,13372,2,
13153,13309,13373,0,
13318,0,13374,2,
13317,0,13375,2,
13319,0,13376,2,
13321,0,13377,2,
13323,0,13378,2,
11694,13322,13379,0,
13324,0,13380,2,
13271,13307,13381,0,
13272,0,13382,2,
13329,10426,13383,0,
13328,0,13384,2,
13348,12443,13385,1,
13097,13380,13386,0,
13330,0,13387,2,
13331,0,13388,2,
13335,0,13389,2,
13336,0,13390,2,
12047,13334,13391,1,
12059,13330,13392,1,
12056,13332,13393,1,
13339,0,13394,2,
13165,13357,13395,0,
13341,0,13396,2,
13058,13344,13397,0,
13346,0,13398,2,
12109,13347,13399,0,
13348,0,13400,2,
13349,0,13401,2,
11987,13350,13402,0,
13249,13351,13403,0,
13346,12966,13404,0,
13250,13353,13405,0,
13354,13352,13406,0,
13358,0,13407,2,
13357,13099,13408,0,
13138,13356,13409,0,
13359,13354,13410,0,
13360,0,13411,2,
13361,10904,13412,0,
13084,13363,13413,1,
13365,0,13414,2,
13364,10791,13415,0,
13366,0,13416,2,
13315,13369,13417,0,
10907,13368,13418,0,
12704,13370,13419,0,
13368,0,13420,2,
13374,10104,13421,0,
13373,0,13422,2,
13376,11517,13423,0,
13377,9827,13424,0,
13326,0,13425,2,
13326,12488,13426,1,
13379,0,13427,2,
13236,13340,13428,0,
10426,13329,13429,1,
13383,0,13430,2,
13183,13397,13431,1,
13327,13384,13432,0,
13395,0,13433,2,
12311,13387,13434,0,
13275,13388,13435,0,
13391,11450,13436,1,
13392,11614,13437,1,
12059,13387,13438,0,
13393,0,13439,2,
13390,13338,13440,0,
13389,13337,13441,0,
13340,13394,13442,0,
13391,0,13443,2,
13392,0,13444,2,
13396,13120,13445,0,
13393,11616,13446,1,
12189,13387,13447,0,
13397,0,13448,2,
13399,0,13449,2,
13398,13017,13450,0,
13400,12540,13451,0,
12539,13401,13452,0,
11773,13402,13453,1,
13404,0,13454,2,
13403,0,13455,2,
13402,0,13456,2,
12442,13401,13457,1,
13405,0,13458,2,
13407,7158,13459,0,
13408,0,13460,2,
13410,0,13461,2,
13407,7158,13462,1,
13411,13256,13463,0,
13428,13429,13464,1,
13412,0,13465,2,
10692,13415,13466,0,
13417,0,13467,2,
13418,0,13468,2,
12810,13419,13469,1,
10796,13420,13470,1,
10260,13421,13471,0,
11683,13423,13472,0,
13419,0,13473,2,
13424,9829,13474,0,
13425,12648,13475,0,
12823,13386,13476,1,
13428,0,13477,2,
13386,0,13478,2,
13432,0,13479,2,
13434,0,13480,2,
13435,0,13481,2,
13439,11616,13482,0,
13438,0,13483,2,
13436,0,13484,2,
13441,0,13485,2,
13437,0,13486,2,
13443,11450,13487,0,
13444,11614,13488,0,
13442,13236,13489,0,
13231,13435,13490,1,
13045,13445,13491,1,
13446,0,13492,2,
13447,0,13493,2,
13240,13448,13494,0,
12350,13449,13495,0,
13450,0,13496,2,
13452,0,13497,2,
13451,0,13498,2,
13453,0,13499,2,
11773,13456,13500,0,
13252,13455,13501,0,
13458,13352,13502,0,
13459,0,13503,2,
13141,13460,13504,0,
13405,13461,13505,0,
10821,13462,13506,0,
9524,13462,13507,0,
13219,13433,13508,0,
13463,0,13509,2,
10271,13462,13510,0,
13464,0,13511,2,
9686,13466,13512,1,
13467,13468,13513,0,
12395,13431,13514,1,
13453,13355,13515,1,
13470,12370,13516,1,
9200,13471,13517,1,
13470,12370,13518,0,
10436,13472,13519,1,
13469,0,13520,2,
12810,13473,13521,0,
9346,13462,13522,0,
9136,13474,13523,1,
13475,0,13524,2,
12020,13476,13525,1,
13476,0,13526,2,
13429,13477,13527,0,
12395,13431,13528,0,
12823,13478,13529,0,
13469,13513,13530,1,
13508,0,13531,2,
13514,13479,13532,0,
12725,13480,13533,0,
13333,13481,13534,0,
13278,13481,13535,0,
13343,13484,13536,0,
13484,13485,13537,0,
13482,13486,13538,0,
13483,12212,13539,0,
13488,0,13540,2,
13487,0,13541,2,
13489,0,13542,2,
10894,13490,13543,0,
13491,10665,13544,1,
13492,13486,13545,0,
13491,10665,13546,0,
12411,13493,13547,0,
13490,0,13548,2,
13482,0,13549,2,
13494,0,13550,2,
13496,13071,13551,0,
13496,12545,13552,0,
12544,13495,13553,1,
13499,13355,13554,0,
13406,13497,13555,0,
13495,0,13556,2,
13500,0,13557,2,
13501,13409,13558,0,
13454,13496,13559,0,
13457,13497,13560,0,
13502,13497,13561,0,
7649,13503,13562,0,
13078,13504,13563,1,
13352,13497,13564,0,
13505,0,13565,2,
13506,0,13566,2,
13507,0,13567,2,
13509,13362,13568,0,
13307,13508,13569,1,
13510,0,13570,2,
13511,10906,13571,0,
13511,0,13572,2,
13512,0,13573,2,
13515,0,13574,2,
13517,0,13575,2,
13518,0,13576,2,
13519,0,13577,2,
13513,0,13578,2,
13521,0,13579,2,
13522,0,13580,2,
13523,0,13581,2,
13524,13427,13582,0,
12384,13525,13583,1,
12154,13526,13584,0,
12480,13525,13585,0,
13527,0,13586,2,
13528,0,13587,2,
13529,0,13588,2,
13586,13394,13589,0,
13542,13430,13590,0,
13532,0,13591,2,
13533,0,13592,2,
13534,0,13593,2,
13535,0,13594,2,
13538,0,13595,2,
13537,0,13596,2,
12055,13539,13597,1,
13543,0,13598,2,
13546,0,13599,2,
11950,13533,13600,1,
12061,13547,13601,1,
10772,13548,13602,1,
13293,13550,13603,0,
13552,13454,13604,0,
13551,0,13605,2,
13553,12549,13606,1,
13555,13496,13607,0,
13554,0,13608,2,
13559,0,13609,2,
13558,0,13610,2,
13553,12549,13611,0,
13560,0,13612,2,
12628,13556,13613,0,
13551,13253,13614,1,
13561,0,13615,2,
6814,13562,13616,0,
13563,12632,13617,1,
13562,8399,13618,1,
13564,13565,13619,0,
13563,0,13620,2,
13565,13352,13621,0,
13566,11503,13622,0,
13567,10097,13623,0,
13568,0,13624,2,
13569,12809,13625,1,
13570,10793,13626,0,
13569,0,13627,2,
13571,0,13628,2,
13572,11104,13629,0,
13530,0,13630,2,
13520,13578,13631,0,
13580,9826,13632,0,
13582,0,13633,2,
13583,0,13634,2,
13585,0,13635,2,
13584,0,13636,2,
13307,13531,13637,0,
13381,13531,13638,0,
13381,13531,13639,0,
11537,13530,13640,0,
12880,13588,13641,0,
13587,13591,13642,0,
13641,0,13643,2,
11950,13592,13644,0,
13440,13593,13645,0,
13594,13342,13646,0,
13597,11627,13647,1,
13596,13541,13648,0,
13595,13540,13649,0,
13597,0,13650,2,
13590,13544,13651,0,
13601,0,13652,2,
13600,12092,13653,1,
13601,11766,13654,1,
13600,0,13655,2,
13603,0,13656,2,
13605,13302,13657,0,
13604,0,13658,2,
13607,0,13659,2,
13557,13608,13660,0,
13613,0,13661,2,
13611,0,13662,2,
12446,13609,13663,0,
13614,0,13664,2,
13614,12634,13665,0,
13616,0,13666,2,
13617,0,13667,2,
10821,13618,13668,0,
9524,13618,13669,0,
13619,0,13670,2,
13620,12632,13671,0,
13457,13621,13672,1,
11670,13622,13673,0,
10271,13618,13674,0,
13465,13624,13675,0,
13625,0,13676,2,
10252,13623,13677,0,
10693,13626,13678,0,
13627,12809,13679,0,
13416,13628,13680,0,
13589,13590,13681,1,
13681,13544,13682,0,
13589,13682,13683,1,
13629,0,13684,2,
11521,13630,13685,1,
13631,0,13686,2,
13632,9830,13687,0,
9346,13618,13688,0,
13633,13634,13689,1,
13634,13633,13690,0,
13636,13635,13691,0,
13639,13514,13692,0,
13637,0,13693,2,
13640,0,13694,2,
13638,0,13695,2,
12652,13685,13696,0,
13656,13385,13697,1,
13644,0,13698,2,
13645,0,13699,2,
13230,13646,13700,1,
13647,0,13701,2,
13649,0,13702,2,
13651,0,13703,2,
13650,11627,13704,0,
13235,13645,13705,1,
13652,11766,13706,0,
13654,0,13707,2,
13653,0,13708,2,
13655,12092,13709,0,
13656,13385,13710,0,
13657,0,13711,2,
13303,13658,13712,0,
13660,0,13713,2,
13659,13612,13714,0,
13661,13662,13715,0,
13663,0,13716,2,
12558,13664,13717,0,
13665,0,13718,2,
13666,8041,13719,0,
13666,8041,13720,0,
13612,13667,13721,0,
13669,0,13722,2,
13668,0,13723,2,
13671,0,13724,2,
10905,13672,13725,0,
10436,13673,13726,1,
9200,13677,13727,1,
13672,0,13728,2,
13671,13676,13729,0,
13675,13414,13730,0,
13674,0,13731,2,
9686,13678,13732,1,
13679,0,13733,2,
13683,0,13734,2,
13695,13432,13735,0,
13685,0,13736,2,
13579,13686,13737,0,
9136,13687,13738,1,
13688,0,13739,2,
13690,0,13740,2,
13643,12711,13741,1,
13691,0,13742,2,
13692,0,13743,2,
12711,13643,13744,0,
13382,13693,13745,0,
13697,12770,13746,1,
13642,13743,13747,0,
13744,0,13748,2,
12211,13698,13749,0,
13536,13699,13750,0,
13700,11067,13751,1,
13343,13699,13752,0,
13700,11067,13753,0,
13545,13701,13754,0,
13701,13702,13755,0,
13704,0,13756,2,
13599,13703,13757,0,
13705,11650,13758,1,
13705,11650,13759,0,
13288,13699,13760,0,
13706,13708,13761,0,
13707,13708,13762,0,
13709,0,13763,2,
13710,0,13764,2,
13706,0,13765,2,
13712,13610,13766,0,
13711,13297,13767,0,
13713,12359,13768,0,
13714,13615,13769,0,
12972,13715,13770,1,
13715,0,13771,2,
13717,0,13772,2,
13719,10271,13773,0,
13721,13670,13774,0,
13720,0,13775,2,
13723,11510,13776,0,
13722,10095,13777,0,
13719,9524,13778,0,
13271,13745,13779,1,
13721,13676,13780,0,
13727,0,13781,2,
13730,0,13782,2,
13729,0,13783,2,
13726,0,13784,2,
13719,9346,13785,0,
13731,10799,13786,0,
13719,10821,13787,0,
10789,13728,13788,1,
13725,0,13789,2,
13732,0,13790,2,
13734,11516,13791,0,
13514,13735,13792,1,
13713,12359,13793,1,
13734,0,13794,2,
12489,13736,13795,1,
12979,13737,13796,1,
13737,0,13797,2,
13739,9833,13798,0,
13738,0,13799,2,
13741,13691,13800,1,
13697,12770,13801,0,
13741,13742,13802,0,
13696,0,13803,2,
12772,13748,13804,0,
13800,0,13805,2,
13694,13803,13806,0,
13747,0,13807,2,
11959,13749,13808,1,
13749,0,13809,2,
13750,0,13810,2,
13751,0,13811,2,
13752,0,13812,2,
13753,0,13813,2,
13755,0,13814,2,
13757,0,13815,2,
13602,13758,13816,0,
13759,0,13817,2,
13760,0,13818,2,
13761,0,13819,2,
13498,13764,13820,0,
13766,0,13821,2,
13296,13767,13822,1,
13768,0,13823,2,
13617,13769,13824,1,
13770,0,13825,2,
12972,13771,13826,0,
9524,13775,13827,0,
13773,0,13828,2,
13774,0,13829,2,
10821,13775,13830,0,
10254,13777,13831,0,
11675,13776,13832,0,
13778,0,13833,2,
13779,0,13834,2,
13780,13670,13835,0,
13733,13783,13836,0,
13785,0,13837,2,
13787,0,13838,2,
13680,13782,13839,0,
10695,13786,13840,0,
10271,13775,13841,0,
13757,13602,13842,1,
13791,0,13843,2,
13792,11682,13844,1,
13794,11685,13845,0,
13793,0,13846,2,
13577,13793,13847,0,
13796,0,13848,2,
13034,13797,13849,0,
12147,13796,13850,0,
13798,9834,13851,0,
9346,13775,13852,0,
13792,0,13853,2,
13747,13746,13854,1,
13801,0,13855,2,
13802,0,13856,2,
10436,13832,13857,1,
13804,12882,13858,1,
13807,13746,13859,0,
13806,0,13860,2,
11959,13809,13861,0,
13648,13810,13862,0,
13813,13598,13863,0,
13811,10889,13864,0,
13441,13812,13865,0,
13814,13756,13866,0,
13818,13345,13867,0,
13819,13763,13868,0,
13808,0,13869,2,
13808,12399,13870,1,
13606,13820,13871,1,
13820,0,13872,2,
13821,13716,13873,0,
13822,0,13874,2,
12460,13823,13875,0,
13824,0,13876,2,
12808,13822,13877,0,
13826,0,13878,2,
13724,13829,13879,0,
13827,0,13880,2,
13830,0,13881,2,
10792,13828,13882,0,
9200,13831,13883,1,
10102,13833,13884,0,
10908,13834,13885,0,
13826,13367,13886,0,
13367,13825,13887,0,
13835,0,13888,2,
13839,0,13889,2,
10794,13834,13890,1,
9686,13840,13891,1,
9646,13837,13892,0,
11515,13838,13893,0,
13842,0,13894,2,
13841,0,13895,2,
13519,13846,13896,1,
13845,0,13897,2,
13804,0,13898,2,
13847,0,13899,2,
12014,13848,13900,1,
13849,0,13901,2,
13850,0,13902,2,
9136,13851,13903,1,
13852,0,13904,2,
13602,13815,13905,0,
13844,0,13906,2,
13813,13598,13907,0,
13854,0,13908,2,
13853,11682,13909,0,
13854,11906,13910,1,
13858,0,13911,2,
13871,10901,13912,1,
13859,0,13913,2,
13094,13901,13914,0,
13861,0,13915,2,
13862,0,13916,2,
13864,0,13917,2,
13863,0,13918,2,
13436,13865,13919,1,
13446,13862,13920,1,
13225,13867,13921,1,
13869,12541,13922,0,
13871,0,13923,2,
13606,13872,13924,0,
13873,0,13925,2,
12753,13874,13926,1,
13875,0,13927,2,
11505,13876,13928,1,
12126,13875,13929,1,
13877,0,13930,2,
11674,13876,13931,0,
13625,13879,13932,1,
9686,13882,13933,1,
10099,13880,13934,0,
11337,13881,13935,0,
13883,0,13936,2,
13857,0,13937,2,
12027,13857,13938,1,
9200,13884,13939,1,
13885,0,13940,2,
13886,0,13941,2,
13733,13888,13942,0,
13891,0,13943,2,
13889,13684,13944,0,
10436,13893,13945,1,
9136,13892,13946,1,
10415,13895,13947,0,
13894,0,13948,2,
13894,11519,13949,0,
12882,13898,13950,0,
12478,13900,13951,0,
13903,0,13952,2,
9422,13904,13953,0,
13905,0,13954,2,
13908,12158,13955,0,
12481,13910,13956,0,
13909,0,13957,2,
13900,0,13958,2,
12385,13910,13959,1,
13911,13104,13960,0,
13959,0,13961,2,
13855,13913,13962,0,
12288,13912,13963,0,
13921,11655,13964,1,
13914,13221,13965,1,
12381,13958,13966,1,
12214,13915,13967,0,
13754,13916,13968,0,
13492,13916,13969,0,
11765,13920,13970,0,
11651,13919,13971,0,
13918,13917,13972,0,
13815,13917,13973,0,
13545,13916,13974,0,
13919,0,13975,2,
13921,11655,13976,0,
13922,0,13977,2,
13923,10901,13978,0,
13924,0,13979,2,
13772,13926,13980,0,
13718,13925,13981,0,
13665,13926,13982,0,
12126,13927,13983,0,
13772,13926,13984,0,
13928,0,13985,2,
13929,0,13986,2,
13718,13930,13987,0,
13931,0,13988,2,
13934,10103,13989,0,
13935,11513,13990,0,
13933,0,13991,2,
13932,0,13992,2,
12256,13937,13993,0,
12133,13932,13994,0,
13939,0,13995,2,
13836,13940,13996,0,
13941,13372,13997,0,
13890,13940,13998,0,
13942,13783,13999,0,
13515,13943,14000,1,
13945,0,14001,2,
13944,0,14002,2,
13948,11681,14003,0,
13947,10803,14004,0,
13574,13943,14005,0,
13949,0,14006,2,
13950,13104,14007,0,
13951,0,14008,2,
13914,0,14009,2,
13953,9671,14010,0,
13954,13598,14011,0,
13920,0,14012,2,
13907,13954,14013,0,
13955,0,14014,2,
13956,0,14015,2,
13912,0,14016,2,
13950,0,14017,2,
13802,13960,14018,0,
13912,13962,14019,1,
14014,14015,14020,0,
12291,14016,14021,0,
13960,13031,14022,0,
13902,14008,14023,0,
13967,0,14024,2,
13968,0,14025,2,
13969,0,14026,2,
13970,0,14027,2,
13971,0,14028,2,
13972,13758,14029,0,
13816,13973,14030,0,
14012,11645,14031,0,
13974,0,14032,2,
11482,13975,14033,1,
13976,0,14034,2,
11967,13967,14035,1,
13978,0,14036,2,
13981,0,14037,2,
13982,0,14038,2,
13873,13980,14039,0,
13725,13985,14040,0,
13983,0,14041,2,
13984,0,14042,2,
13726,13986,14043,1,
13987,13925,14044,0,
13784,13986,14045,0,
11999,13992,14046,1,
13788,13985,14047,0,
9200,13989,14048,1,
10436,13990,14049,1,
13993,0,14050,2,
13994,0,14051,2,
13996,13888,14052,0,
13998,0,14053,2,
13890,13999,14054,1,
14011,13751,14055,1,
14000,0,14056,2,
12262,14001,14057,0,
14002,13843,14058,0,
14003,0,14059,2,
12262,14001,14060,1,
9686,14004,14061,1,
14005,0,14062,2,
14007,0,14063,2,
13806,13966,14064,1,
13221,14009,14065,0,
13966,13860,14066,0,
13965,0,14067,2,
9136,14010,14068,1,
14011,0,14069,2,
11645,14012,14070,1,
14013,0,14071,2,
13963,0,14072,2,
14018,0,14073,2,
14071,13917,14074,0,
14054,12372,14075,1,
14019,12291,14076,1,
13965,14023,14077,1,
11967,14024,14078,0,
13866,14025,14079,0,
14028,14027,14080,0,
14026,13549,14081,0,
14029,0,14082,2,
14031,0,14083,2,
14030,0,14084,2,
13649,14032,14085,0,
14035,12695,14086,1,
14035,0,14087,2,
13979,14036,14088,0,
14038,13930,14089,0,
14039,0,14090,2,
13984,14037,14091,0,
12366,14041,14092,0,
14040,0,14093,2,
14043,0,14094,2,
14042,13930,14095,0,
14044,0,14096,2,
14037,13772,14097,0,
14047,14046,14098,0,
14045,0,14099,2,
14049,0,14100,2,
14048,0,14101,2,
14052,0,14102,2,
14054,12372,14103,0,
14057,0,14104,2,
14058,0,14105,2,
14055,0,14106,2,
14061,0,14107,2,
14043,13991,14108,1,
14063,13154,14109,0,
14022,0,14110,2,
14023,0,14111,2,
14065,0,14112,2,
14064,0,14113,2,
13906,14053,14114,0,
14028,14027,14115,0,
13751,14069,14116,0,
14021,0,14117,2,
14020,0,14118,2,
14066,0,14119,2,
14022,13155,14120,0,
13320,14022,14121,0,
14068,0,14122,2,
14076,14118,14123,0,
13770,14088,14124,1,
13962,14117,14125,0,
14078,0,14126,2,
14079,0,14127,2,
13437,14081,14128,1,
13817,14082,14129,0,
14080,0,14130,2,
13647,14085,14131,1,
13654,14079,14132,1,
14086,0,14133,2,
14087,12695,14134,0,
14088,0,14135,2,
14089,14090,14136,0,
14091,0,14137,2,
14092,0,14138,2,
14093,13988,14139,0,
14095,0,14140,2,
14094,13991,14141,0,
13926,14097,14142,1,
12565,14100,14143,1,
14076,14020,14144,1,
12565,14100,14145,0,
14102,14053,14146,0,
14103,0,14147,2,
14059,14105,14148,0,
12470,14104,14149,0,
14106,11524,14150,0,
13896,14107,14151,1,
13896,14107,14152,0,
14106,0,14153,2,
14109,0,14154,2,
14108,0,14155,2,
13209,14110,14156,0,
14066,14077,14157,0,
14067,14111,14158,0,
13268,14112,14159,0,
14113,14077,14160,0,
14114,14102,14161,0,
14116,0,14162,2,
14162,13813,14163,0,
14129,14084,14164,0,
14125,0,14165,2,
12220,14126,14166,0,
13762,14127,14167,0,
14128,12106,14168,1,
14130,14083,14169,0,
14128,12106,14170,0,
14132,0,14171,2,
14131,0,14172,2,
12550,14131,14173,0,
13707,14127,14174,0,
12696,14132,14175,0,
14134,0,14176,2,
13825,14135,14177,0,
14137,13930,14178,0,
14136,0,14179,2,
14138,13938,14180,0,
13887,14135,14181,0,
14139,0,14182,2,
14140,14096,14183,0,
14141,0,14184,2,
14136,13788,14185,1,
14138,13938,14186,1,
14145,0,14187,2,
13844,14146,14188,1,
12140,14149,14189,1,
14148,13897,14190,0,
14149,0,14191,2,
14150,0,14192,2,
14153,11689,14193,0,
14152,0,14194,2,
13031,14154,14195,0,
14158,0,14196,2,
14157,0,14197,2,
14159,0,14198,2,
14144,0,14199,2,
14123,0,14200,2,
14161,0,14201,2,
14124,0,14202,2,
11540,14124,14203,0,
13957,14201,14204,0,
14165,14072,14205,0,
14166,0,14206,2,
14167,0,14207,2,
14169,14168,14208,0,
14168,14083,14209,0,
14164,0,14210,2,
14170,0,14211,2,
12450,14172,14212,1,
12622,14171,14213,1,
14174,0,14214,2,
14175,0,14215,2,
12100,14166,14216,1,
14177,0,14217,2,
14179,13788,14218,0,
14178,0,14219,2,
14182,14046,14220,0,
14180,0,14221,2,
14181,0,14222,2,
14183,14098,14223,0,
14099,14184,14224,0,
14185,0,14225,2,
12705,14187,14226,0,
14188,12642,14227,1,
14006,14192,14228,0,
12267,14191,14229,0,
14190,0,14230,2,
14189,0,14231,2,
14163,14074,14232,1,
14232,13758,14233,0,
14163,14233,14234,1,
14164,13964,14235,1,
13899,14194,14236,0,
14193,0,14237,2,
14195,0,14238,2,
14197,14196,14239,0,
14198,13426,14240,1,
13426,14198,14241,0,
14188,0,14242,2,
14033,14168,14243,0,
14173,0,14244,2,
14203,0,14245,2,
11534,14202,14246,1,
14204,0,14247,2,
13959,14204,14248,1,
14227,0,14249,2,
12578,14246,14250,0,
12578,14246,14251,1,
12100,14206,14252,0,
13868,14207,14253,0,
13964,14210,14254,0,
14208,0,14255,2,
14209,14033,14256,0,
14212,14213,14257,0,
14173,14213,14258,0,
14214,13765,14259,0,
14216,12919,14260,1,
14216,0,14261,2,
13878,14217,14262,0,
14218,0,14263,2,
14047,14219,14264,0,
14220,0,14265,2,
13997,14222,14266,0,
14050,14221,14267,0,
14223,0,14268,2,
14186,14224,14269,1,
14224,0,14270,2,
14060,14226,14271,1,
14226,0,14272,2,
14228,14230,14273,0,
14229,0,14274,2,
14234,0,14275,2,
14235,0,14276,2,
14108,14236,14277,1,
14238,13156,14278,0,
14236,0,14279,2,
14239,0,14280,2,
14241,0,14281,2,
14160,14240,14282,0,
14242,12642,14283,0,
13961,14247,14284,0,
14248,14199,14285,0,
14251,14205,14286,1,
14143,14267,14287,1,
14205,14251,14288,0,
14252,0,14289,2,
14253,0,14290,2,
14254,0,14291,2,
14211,14255,14292,0,
14256,0,14293,2,
14211,14255,14294,0,
14258,0,14295,2,
13653,14259,14296,1,
14260,0,14297,2,
14261,12919,14298,0,
13313,14262,14299,1,
14263,13789,14300,0,
14264,0,14301,2,
14266,0,14302,2,
14266,13516,14303,1,
14265,14051,14304,0,
14269,0,14305,2,
14267,0,14306,2,
14186,14270,14307,0,
14271,0,14308,2,
14060,14272,14309,0,
14273,0,14310,2,
14275,11691,14311,0,
14276,12012,14312,0,
14277,0,14313,2,
14275,0,14314,2,
14276,0,14315,2,
14278,0,14316,2,
14155,14279,14317,0,
14156,14278,14318,0,
14240,14280,14319,0,
14282,13689,14320,0,
14103,14249,14321,0,
14211,14255,14322,0,
14283,0,14323,2,
14075,14249,14324,0,
14250,0,14325,2,
13209,14278,14326,0,
14284,0,14327,2,
14304,14268,14328,0,
14320,13805,14329,0,
14285,14286,14330,0,
14245,14325,14331,0,
14288,0,14332,2,
14296,12921,14333,1,
12342,14289,14334,0,
13870,14290,14335,0,
14292,14293,14336,0,
14034,14291,14337,0,
14295,14215,14338,0,
14296,12921,14339,0,
14298,0,14340,2,
14290,13870,14341,1,
14299,0,14342,2,
12130,14299,14343,0,
14139,14301,14344,0,
13928,14300,14345,1,
14302,13516,14346,0,
14287,0,14347,2,
14303,0,14348,2,
14143,14306,14349,0,
14307,0,14350,2,
14309,0,14351,2,
14310,14237,14352,0,
14311,0,14353,2,
14312,0,14354,2,
14314,11799,14355,0,
14315,12146,14356,0,
13320,14316,14357,0,
13155,14316,14358,0,
14317,0,14359,2,
14318,0,14360,2,
14319,0,14361,2,
14034,14291,14362,0,
14123,14286,14363,0,
14284,14199,14364,0,
14286,14199,14365,0,
14321,0,14366,2,
14341,13150,14367,1,
12001,14342,14368,1,
14334,0,14369,2,
12620,14334,14370,1,
14335,0,14371,2,
14336,0,14372,2,
14294,14337,14373,0,
14339,0,14374,2,
14341,13150,14375,0,
14343,0,14376,2,
14328,0,14377,2,
14046,14344,14378,1,
14075,14328,14379,1,
14345,0,14380,2,
14346,0,14381,2,
14349,0,14382,2,
14362,14033,14383,1,
14352,0,14384,2,
14356,0,14385,2,
14355,0,14386,2,
14357,0,14387,2,
14358,0,14388,2,
14361,14281,14389,0,
14362,0,14390,2,
14364,0,14391,2,
14363,0,14392,2,
14329,13960,14393,0,
14365,14284,14394,0,
14331,0,14395,2,
14323,14366,14396,0,
14324,14377,14397,0,
14370,13136,14398,0,
12693,14369,14399,0,
13977,14371,14400,0,
14257,14372,14401,0,
14373,0,14402,2,
14370,13136,14403,1,
14375,0,14404,2,
14368,12398,14405,0,
14075,14377,14406,0,
14378,0,14407,2,
13576,14381,14408,0,
14379,0,14409,2,
14383,0,14410,2,
14384,14353,14411,0,
14387,8124,14412,0,
14388,13211,14413,0,
14389,0,14414,2,
14033,14390,14415,0,
14390,14083,14416,0,
14392,14332,14417,0,
14391,14200,14418,0,
14394,0,14419,2,
14368,12398,14420,1,
12576,14413,14421,0,
14420,14395,14422,0,
14398,0,14423,2,
14399,0,14424,2,
14400,0,14425,2,
14401,14402,14426,0,
14086,14400,14427,1,
14405,0,14428,2,
14331,14420,14429,1,
14406,0,14430,2,
13795,14408,14431,1,
14410,12474,14432,0,
14410,0,14433,2,
14411,0,14434,2,
14412,14360,14435,0,
13689,14414,14436,0,
14415,0,14437,2,
14408,0,14438,2,
14372,14402,14439,0,
14243,14416,14440,0,
14417,14419,14441,0,
14397,0,14442,2,
14431,0,14443,2,
14427,13375,14444,1,
14424,14423,14445,0,
14133,14425,14446,0,
14426,0,14447,2,
14427,13375,14448,0,
14376,14428,14449,0,
14429,0,14450,2,
14422,0,14451,2,
14430,14147,14452,0,
14396,14442,14453,0,
14432,0,14454,2,
12572,14433,14455,0,
14434,14386,14456,0,
14436,0,14457,2,
14437,14028,14458,0,
13795,14438,14459,0,
14439,14212,14460,0,
14115,14437,14461,0,
14440,0,14462,2,
14453,0,14463,2,
14338,14447,14464,0,
14445,0,14465,2,
14446,0,14466,2,
12970,14445,14467,1,
14449,0,14468,2,
14448,0,14469,2,
14303,14449,14470,1,
14227,14452,14471,1,
14248,14453,14472,1,
14458,14070,14473,1,
14354,14454,14474,0,
14455,0,14475,2,
14457,13740,14476,0,
14458,0,14477,2,
14429,14451,14478,0,
14461,0,14479,2,
14460,0,14480,2,
14459,0,14481,2,
14441,14451,14482,0,
14322,14462,14483,0,
14330,14463,14484,0,
14348,14468,14485,0,
14476,0,14486,2,
14483,14439,14487,1,
14487,14212,14488,0,
14483,14488,14489,1,
12970,14465,14490,0,
14176,14466,14491,0,
14464,0,14492,2,
14467,0,14493,2,
14471,0,14494,2,
14472,14313,14495,1,
14473,0,14496,2,
14474,0,14497,2,
14475,14385,14498,0,
14472,0,14499,2,
12715,14473,14500,0,
14464,14333,14501,1,
14070,14477,14502,0,
14285,14463,14503,0,
14248,14463,14504,0,
14478,0,14505,2,
14479,14083,14506,0,
14480,14244,14507,0,
13805,14486,14508,0,
14505,14470,14509,0,
14490,0,14510,2,
14491,0,14511,2,
14333,14492,14512,0,
13312,14493,14513,1,
13371,14493,14514,0,
14484,0,14515,2,
14260,14491,14516,1,
14485,0,14517,2,
14475,14497,14518,0,
14496,12644,14519,0,
14456,14498,14520,0,
14499,14277,14521,0,
14500,0,14522,2,
14213,14507,14523,1,
13108,14489,14524,0,
14489,0,14525,2,
14501,0,14526,2,
14485,14443,14527,0,
14503,0,14528,2,
14502,0,14529,2,
14504,0,14530,2,
14508,13960,14531,0,
14530,14327,14532,0,
14418,14528,14533,0,
14509,14443,14534,0,
12973,14510,14535,0,
14297,14511,14536,0,
14512,0,14537,2,
14513,0,14538,2,
14514,0,14539,2,
14513,13936,14540,1,
14441,14515,14541,0,
14516,13575,14542,1,
14516,13575,14543,0,
14519,0,14544,2,
14518,0,14545,2,
14520,0,14546,2,
14521,0,14547,2,
14524,0,14548,2,
14523,0,14549,2,
14526,13523,14550,0,
14526,0,14551,2,
14525,13096,14552,0,
14527,0,14553,2,
14508,0,14554,2,
14482,14515,14555,0,
14529,14027,14556,0,
14531,0,14557,2,
14286,14533,14558,1,
14374,14537,14559,0,
14555,0,14560,2,
14535,0,14561,2,
14536,0,14562,2,
13202,14535,14563,1,
14538,13936,14564,0,
14540,0,14565,2,
14144,14532,14566,1,
14541,0,14567,2,
14543,0,14568,2,
14545,14544,14569,0,
14556,14506,14570,1,
14570,14168,14571,0,
14556,14571,14572,1,
14359,14547,14573,0,
14549,0,14574,2,
14549,13323,14575,0,
14550,0,14576,2,
13581,14551,14577,0,
14552,0,14578,2,
14554,13856,14579,0,
14481,14553,14580,0,
13202,14561,14581,0,
14340,14562,14582,0,
14559,0,14583,2,
14563,0,14584,2,
14564,0,14585,2,
14558,0,14586,2,
14566,14305,14587,0,
14509,14560,14588,0,
14567,14450,14589,1,
14287,14558,14590,1,
14569,14546,14591,0,
14572,0,14592,2,
14566,14305,14593,1,
14559,14367,14594,1,
13378,14574,14595,0,
14575,0,14596,2,
14577,0,14597,2,
14573,0,14598,2,
14557,14073,14599,0,
14567,14450,14600,0,
14534,14560,14601,0,
14600,0,14602,2,
14581,0,14603,2,
14403,14582,14604,1,
14582,0,14605,2,
14367,14583,14606,0,
13512,14584,14607,1,
14539,14585,14608,0,
13573,14584,14609,0,
14586,14347,14610,0,
14589,0,14611,2,
14588,0,14612,2,
14587,0,14613,2,
14308,14589,14614,0,
14591,0,14615,2,
14592,12875,14616,0,
14593,14573,14617,1,
14592,0,14618,2,
14594,0,14619,2,
14578,14596,14620,0,
14595,0,14621,2,
14593,14598,14622,0,
14599,14109,14623,0,
14601,0,14624,2,
14580,14624,14625,0,
13206,14603,14626,0,
14604,0,14627,2,
14606,0,14628,2,
14403,14605,14629,0,
14604,13727,14630,1,
14607,0,14631,2,
14607,14101,14632,1,
14609,0,14633,2,
14608,0,14634,2,
14602,14451,14635,0,
14610,0,14636,2,
14271,14611,14637,1,
14612,14517,14638,0,
14350,14613,14639,0,
14614,0,14640,2,
14615,14522,14641,0,
14616,0,14642,2,
12933,14618,14643,0,
14619,13738,14644,0,
14619,0,14645,2,
14597,14621,14646,0,
14617,0,14647,2,
14622,0,14648,2,
14625,0,14649,2,
14404,14628,14650,0,
13413,14626,14651,1,
14626,0,14652,2,
14627,13781,14653,0,
14629,0,14654,2,
14142,14630,14655,1,
14631,14101,14656,0,
14632,14608,14657,1,
14142,14630,14658,0,
14632,0,14659,2,
14470,14635,14660,1,
14382,14636,14661,0,
14431,14638,14662,1,
14639,0,14663,2,
14351,14640,14664,0,
14064,14625,14665,1,
14641,0,14666,2,
14643,0,14667,2,
14644,0,14668,2,
14645,13799,14669,0,
14113,14649,14670,0,
14329,14649,14671,0,
14282,14649,14672,0,
14651,0,14673,2,
13413,14652,14674,0,
14653,0,14675,2,
14650,0,14676,2,
13946,14655,14677,0,
14656,0,14678,2,
14657,14345,14679,0,
14659,14634,14680,0,
14658,0,14681,2,
14657,14380,14682,1,
14655,0,14683,2,
14660,0,14684,2,
14637,14661,14685,1,
14662,0,14686,2,
14661,0,14687,2,
14590,14663,14688,0,
14660,14231,14689,1,
14664,0,14690,2,
14663,14590,14691,1,
12646,14662,14692,0,
14665,12151,14693,1,
14642,14666,14694,0,
14665,12151,14695,0,
14548,14667,14696,0,
14650,14444,14697,1,
14668,14576,14698,0,
14669,0,14699,2,
14320,14649,14700,0,
14160,14649,14701,0,
14393,14649,14702,0,
14670,0,14703,2,
14671,0,14704,2,
13732,14673,14705,1,
13790,14673,14706,0,
14674,0,14707,2,
14654,14675,14708,0,
14444,14676,14709,0,
14633,14678,14710,0,
14677,0,14711,2,
14680,0,14712,2,
14679,0,14713,2,
14682,0,14714,2,
14684,14189,14715,0,
13946,14683,14716,1,
14685,0,14717,2,
12571,14686,14718,1,
14637,14687,14719,0,
14689,14664,14720,1,
14689,14690,14721,0,
14692,0,14722,2,
14688,0,14723,2,
14694,0,14724,2,
14695,0,14725,2,
14698,0,14726,2,
14697,0,14727,2,
14646,14699,14728,0,
14700,0,14729,2,
14701,0,14730,2,
14702,0,14731,2,
14672,0,14732,2,
14703,14119,14733,0,
12278,14725,14734,0,
14579,14704,14735,0,
14705,0,14736,2,
14540,14708,14737,1,
14708,0,14738,2,
13422,14707,14739,0,
14706,0,14740,2,
14705,13995,14741,1,
14709,0,14742,2,
14681,14711,14743,0,
14712,14713,14744,0,
14710,0,14745,2,
14715,0,14746,2,
14716,0,14747,2,
14688,14717,14748,0,
14719,0,14749,2,
14720,0,14750,2,
14691,14717,14751,0,
14721,0,14752,2,
12710,14722,14753,0,
14696,14724,14754,0,
14699,14726,14755,0,
14727,13903,14756,0,
14727,0,14757,2,
14476,14729,14758,0,
14623,14731,14759,0,
14239,14730,14760,0,
14389,14732,14761,0,
14077,14733,14762,1,
14735,0,14763,2,
13100,14759,14764,1,
13689,14761,14765,1,
14240,14760,14766,1,
14736,13995,14767,0,
14565,14738,14768,0,
14737,14225,14769,0,
14739,0,14770,2,
14000,14739,14771,1,
14469,14742,14772,0,
14741,14710,14773,1,
14741,0,14774,2,
14743,0,14775,2,
14737,14225,14776,1,
14744,0,14777,2,
14274,14746,14778,0,
14748,0,14779,2,
14421,14735,14780,0,
14751,14750,14781,0,
14121,14326,14782,1,
14782,14735,14783,0,
14121,14783,14784,1,
14693,14753,14785,1,
14753,0,14786,2,
14754,0,14787,2,
14756,0,14788,2,
14755,0,14789,2,
13952,14757,14790,0,
13858,14735,14791,1,
13800,14758,14792,1,
14734,0,14793,2,
14762,0,14794,2,
14785,0,14795,2,
13911,14763,14796,0,
14762,8656,14797,1,
14766,0,14798,2,
14766,8568,14799,1,
7775,14792,14800,1,
14767,0,14801,2,
14056,14770,14802,0,
14768,0,14803,2,
14769,0,14804,2,
14773,14407,14805,1,
14772,0,14806,2,
14773,14407,14807,0,
14776,14775,14808,0,
14774,14745,14809,0,
14776,0,14810,2,
14718,14778,14811,1,
14749,14779,14812,0,
14778,0,14813,2,
14780,0,14814,2,
14780,8116,14815,0,
14120,14763,14816,0,
14784,0,14817,2,
8115,14780,14818,1,
14693,14786,14819,0,
8116,14780,14820,1,
14620,14787,14821,0,
14788,14789,14822,0,
14022,14763,14823,0,
14772,14542,14824,1,
8140,14764,14825,0,
14765,0,14826,2,
14790,0,14827,2,
7458,14791,14828,0,
14792,7775,14829,0,
14791,0,14830,2,
14764,8140,14831,1,
14794,8636,14832,0,
14796,0,14833,2,
14122,14824,14834,0,
14797,14793,14835,0,
14798,8197,14836,0,
7458,14830,14837,1,
14797,14734,14838,1,
14740,14801,14839,0,
14802,0,14840,2,
14803,14804,14841,0,
14542,14806,14842,0,
14805,14744,14843,1,
14808,0,14844,2,
14809,0,14845,2,
14807,0,14846,2,
14805,14777,14847,0,
14743,14810,14848,0,
14811,0,14849,2,
14718,14813,14850,0,
14812,0,14851,2,
8422,14814,14852,0,
14815,0,14853,2,
14816,0,14854,2,
14817,14435,14855,0,
14819,0,14856,2,
14821,0,14857,2,
14823,0,14858,2,
14825,0,14859,2,
14824,0,14860,2,
8183,14826,14861,0,
14829,0,14862,2,
14828,0,14863,2,
8183,14826,14864,1,
14832,0,14865,2,
14833,14017,14866,0,
14834,0,14867,2,
14836,0,14868,2,
8441,14862,14869,0,
14838,0,14870,2,
14835,0,14871,2,
14771,14839,14872,1,
14839,0,14873,2,
14841,0,14874,2,
14062,14840,14875,0,
14842,0,14876,2,
14843,0,14877,2,
14716,14844,14878,0,
14845,14846,14879,0,
14847,0,14880,2,
14848,0,14881,2,
14841,14682,14882,0,
14721,14849,14883,0,
14849,14750,14884,0,
14850,0,14885,2,
14852,0,14886,2,
14851,14750,14887,0,
8425,14853,14888,0,
14413,14854,14889,0,
14855,0,14890,2,
14728,14857,14891,0,
14278,14858,14892,0,
8631,14859,14893,0,
14860,14068,14894,0,
14861,0,14895,2,
14837,0,14896,2,
8167,14863,14897,0,
14865,8657,14898,0,
12986,14866,14899,1,
8654,14868,14900,0,
14869,0,14901,2,
14884,14751,14902,0,
14795,14870,14903,0,
14872,0,14904,2,
14771,14873,14905,0,
14151,14875,14906,1,
14714,14874,14907,0,
14568,14876,14908,0,
14875,0,14909,2,
14879,0,14910,2,
14882,0,14911,2,
14884,14851,14912,0,
14883,0,14913,2,
8624,14886,14914,0,
14887,0,14915,2,
14888,0,14916,2,
12575,14889,14917,1,
14818,14888,14918,1,
14891,0,14919,2,
13215,14892,14920,1,
14894,0,14921,2,
14893,0,14922,2,
14795,14870,14923,0,
8157,14895,14924,0,
14819,14870,14925,0,
14897,0,14926,2,
14898,0,14927,2,
14799,14898,14928,1,
8195,14899,14929,0,
14918,0,14930,2,
14896,14901,14931,0,
14899,0,14932,2,
14925,0,14933,2,
14901,14837,14934,1,
14903,0,14935,2,
14864,14900,14936,1,
14409,14904,14937,0,
14905,0,14938,2,
14906,14494,14939,1,
14907,14877,14940,0,
14379,14904,14941,1,
14908,0,14942,2,
14906,0,14943,2,
14908,14878,14944,0,
14151,14909,14945,0,
14907,0,14946,2,
14877,14911,14947,0,
14912,0,14948,2,
14885,14913,14949,0,
14903,14902,14950,0,
14914,0,14951,2,
14915,14752,14952,0,
14818,14916,14953,0,
7743,14917,14954,0,
14914,8625,14955,0,
7743,14917,14956,1,
14902,14795,14957,0,
8902,14918,14958,0,
14822,14919,14959,0,
7728,14920,14960,1,
14900,0,14961,2,
14924,0,14962,2,
14799,14927,14963,0,
14949,14948,14964,0,
14928,0,14965,2,
14929,0,14966,2,
14934,0,14967,2,
8195,14932,14968,1,
14871,14933,14969,0,
14936,0,14970,2,
14962,14800,14971,1,
14871,14935,14972,0,
14941,14879,14973,1,
14931,0,14974,2,
14937,0,14975,2,
14941,0,14976,2,
14940,0,14977,2,
14944,0,14978,2,
14747,14942,14979,0,
14943,14471,14980,0,
14945,0,14981,2,
8427,14951,14982,0,
14953,0,14983,2,
14956,14890,14984,0,
14955,8844,14985,0,
14954,0,14986,2,
14955,0,14987,2,
14958,8763,14988,0,
14951,8427,14989,1,
14959,0,14990,2,
14962,14800,14991,0,
14960,14922,14992,0,
14864,14961,14993,0,
14960,14922,14994,0,
14960,14893,14995,1,
14956,14855,14996,1,
14963,14970,14997,0,
8203,14966,14998,0,
14971,14967,14999,0,
14968,14897,15000,1,
14969,14964,15001,0,
14970,14965,15002,0,
14996,0,15003,2,
14995,0,15004,2,
14977,14880,15005,0,
14938,14975,15006,0,
14976,14910,15007,0,
14978,14881,15008,0,
14979,0,15009,2,
14980,0,15010,2,
14947,14973,15011,0,
14964,0,15012,2,
14982,0,15013,2,
8132,14986,15014,0,
14985,0,15015,2,
14984,0,15016,2,
14903,14965,15017,0,
14989,14930,15018,0,
14953,14989,15019,0,
8764,14989,15020,0,
8661,14989,15021,0,
8847,14989,15022,0,
8765,14989,15023,0,
14969,0,15024,2,
14827,14990,15025,0,
14963,0,15026,2,
14991,0,15027,2,
14971,0,15028,2,
14993,0,15029,2,
14972,14933,15030,0,
14991,14967,15031,0,
14968,0,15032,2,
14992,0,15033,2,
14827,14990,15034,0,
14989,14967,15035,0,
14997,0,15036,2,
14831,14998,15037,1,
14998,0,15038,2,
15030,0,15039,2,
15034,14867,15040,0,
15031,0,15041,2,
15008,14947,15042,0,
14999,15000,15043,0,
14939,15006,15044,1,
15006,0,15045,2,
15005,0,15046,2,
15008,0,15047,2,
15009,14844,15048,0,
14981,15010,15049,0,
15011,15008,15050,0,
15007,0,15051,2,
14903,15012,15052,0,
15005,14973,15053,1,
14795,15012,15054,0,
14983,15013,15055,0,
14994,15003,15056,0,
14820,15014,15057,1,
8901,15015,15058,0,
15014,0,15059,2,
15019,0,15060,2,
15017,14902,15061,0,
15017,15012,15062,0,
15024,14965,15063,0,
8845,15015,15064,0,
15025,0,15065,2,
15032,14926,15066,0,
15004,15003,15067,0,
4061,15000,15068,0,
14999,0,15069,2,
15001,0,15070,2,
15057,0,15071,2,
15029,15036,15072,0,
15037,0,15073,2,
14831,15038,15074,0,
14974,15041,15075,0,
15002,15039,15076,0,
15069,14974,15077,0,
15044,0,15078,2,
14939,15045,15079,0,
15048,14946,15080,0,
14495,15049,15081,1,
14946,15047,15082,0,
15046,14973,15083,0,
15049,0,15084,2,
15053,0,15085,2,
15052,0,15086,2,
15054,0,15087,2,
15056,0,15088,2,
15058,0,15089,2,
14820,15059,15090,0,
14988,15055,15091,0,
15055,8844,15092,0,
15060,15013,15093,0,
15063,0,15094,2,
15062,0,15095,2,
15065,14921,15096,0,
8940,15055,15097,0,
15066,0,15098,2,
15064,14930,15099,0,
15040,0,15100,2,
14921,15048,15101,0,
15067,0,15102,2,
15001,15072,15103,0,
15000,15073,15104,0,
15074,0,15105,2,
15096,0,15106,2,
15075,0,15107,2,
14902,15076,15108,0,
15076,15070,15109,0,
15016,15088,15110,0,
15075,15072,15111,0,
15067,15071,15112,0,
15066,15073,15113,0,
15101,15100,15114,0,
15007,15078,15115,0,
15078,14973,15116,0,
15079,0,15117,2,
15081,0,15118,2,
15082,0,15119,2,
15083,0,15120,2,
14495,15084,15121,0,
14969,15086,15122,0,
15087,14856,15123,0,
8903,15089,15124,0,
15090,0,15125,2,
15091,0,15126,2,
15071,14930,15127,0,
15092,0,15128,2,
15094,15026,15129,0,
15071,14930,15130,0,
15076,0,15131,2,
15077,15041,15132,0,
15072,0,15133,2,
15127,15020,15134,0,
15130,15104,15135,0,
15000,15107,15136,0,
15109,0,15137,2,
15072,15131,15138,0,
14971,15104,15139,0,
15132,0,15140,2,
15110,15102,15141,0,
15133,14971,15142,0,
15116,15046,15143,0,
15115,0,15144,2,
15106,14867,15145,0,
15114,0,15146,2,
15116,15118,15147,0,
15119,14911,15148,0,
15120,15051,15149,0,
15121,0,15150,2,
15104,15003,15151,0,
15110,0,15152,2,
15124,0,15153,2,
15118,14647,15154,0,
15121,14647,15155,0,
15064,15128,15156,0,
14971,15109,15157,0,
15112,14930,15158,0,
15113,0,15159,2,
15042,15116,15160,0,
15105,15159,15161,0,
15072,15137,15162,0,
15138,0,15163,2,
15116,15154,15164,0,
15142,0,15165,2,
15145,0,15166,2,
15143,0,15167,2,
15144,15117,15168,0,
15042,15146,15169,0,
15160,15146,15170,0,
15152,15071,15171,0,
15126,15153,15172,0,
15134,8765,15173,0,
15155,0,15174,2,
15130,15151,15175,0,
15156,0,15176,2,
15136,0,15177,2,
15134,8193,15178,0,
15104,15140,15179,0,
15157,0,15180,2,
15141,0,15181,2,
15161,15111,15182,0,
14999,15163,15183,0,
15161,15111,15184,0,
15161,15111,15185,0,
15168,15167,15186,0,
15048,15166,15187,0,
15080,15166,15188,0,
15169,15147,15189,0,
15170,0,15190,2,
15171,0,15191,2,
15043,15163,15192,0,
14648,15174,15193,0,
15176,8627,15194,0,
15177,15098,15195,0,
15042,15164,15196,0,
15179,0,15197,2,
15180,15027,15198,0,
15161,15197,15199,0,
15146,15196,15200,0,
15187,0,15201,2,
15186,0,15202,2,
15188,0,15203,2,
15189,0,15204,2,
15186,15190,15205,0,
15191,15125,15206,0,
15200,0,15207,2,
15199,0,15208,2,
15202,15118,15209,0,
15050,15201,15210,0,
15148,15203,15211,0,
15081,15205,15212,1,
15206,0,15213,2,
15154,15202,15214,0,
15097,15206,15215,0,
15199,15110,15216,0,
15004,15208,15217,0,
15158,15208,15218,0,
15210,0,15219,2,
15209,0,15220,2,
14843,15211,15221,1,
15112,15208,15222,0,
15018,15213,15223,0,
15212,14967,15224,0,
15213,14930,15225,0,
15214,0,15226,2,
15216,0,15227,2,
15193,15226,15228,0,
15227,15181,15229,0,
15221,0,15230,2,
15149,15219,15231,0,
15220,15204,15232,0,
15223,0,15233,2,
15225,0,15234,2,
15234,14983,15235,0,
15228,15207,15236,0,
15085,15230,15237,0,
15232,15150,15238,0,
15044,15231,15239,1,
15085,15230,15240,0,
15093,15233,15241,0,
15236,0,15242,2,
14691,15236,15243,1,
14617,15238,15244,1,
15237,15239,15245,0,
15239,15240,15246,1,
15242,15108,15247,0,
14751,15242,15248,0,
14691,15242,15249,0,
14950,15242,15250,0,
14781,15242,15251,0,
15243,0,15252,2,
15245,15212,15253,0,
14957,15242,15254,0,
15245,15212,15255,0,
15212,15245,15256,1,
15061,15242,15257,0,
15224,15246,15258,0,
14902,15242,15259,0,
15076,15242,15260,0,
14971,15242,15261,0,
15259,0,15262,2,
15247,0,15263,2,
15260,14902,15264,0,
15068,15252,15265,0,
15261,15108,15266,0,
15248,0,15267,2,
15249,0,15268,2,
15250,0,15269,2,
15251,0,15270,2,
15212,15252,15271,0,
15253,15244,15272,0,
15254,0,15273,2,
15244,15255,15274,1,
15256,15246,15275,0,
15257,0,15276,2,
15258,15244,15277,0,
15246,15256,15278,1,
14964,15262,15279,0,
15263,15137,15280,0,
15103,15262,15281,0,
15266,0,15282,2,
14812,15267,15283,0,
15268,14723,15284,0,
15162,15263,15285,0,
14952,15270,15286,0,
15122,15269,15287,0,
15245,15271,15288,0,
15123,15273,15289,0,
15272,15243,15290,1,
15275,15274,15291,0,
15272,15252,15292,0,
15265,15073,15293,0,
15274,15275,15294,1,
15276,15095,15295,0,
15264,0,15296,2,
15295,15129,15297,0,
14785,15279,15298,1,
14838,15289,15299,1,
15137,15296,15300,0,
15110,15280,15301,0,
14928,15287,15302,1,
14685,15284,15303,1,
14720,15283,15304,1,
15028,15285,15305,1,
14811,15286,15306,1,
15290,0,15307,2,
15281,0,15308,2,
15185,15280,15309,0,
15165,15282,15310,0,
15182,15300,15311,0,
15305,15035,15312,0,
15183,15308,15313,0,
14936,15297,15314,1,
15309,0,15315,2,
15304,15244,15316,0,
15303,15252,15317,0,
15151,15305,15318,0,
15298,14870,15319,0,
15288,15306,15320,0,
14795,15306,15321,0,
15303,15292,15322,1,
15291,15307,15323,0,
15298,15299,15324,0,
15022,15304,15325,0,
15303,15306,15326,0,
15293,15304,15327,0,
15305,14967,15328,0,
15291,15307,15329,1,
15192,15308,15330,0,
15277,15302,15331,0,
15310,15198,15332,0,
15301,15184,15333,0,
15139,15302,15334,0,
15333,0,15335,2,
15313,0,15336,2,
15320,14967,15337,0,
15316,15303,15338,0,
15311,0,15339,2,
15315,15208,15340,0,
14934,15332,15341,1,
15302,15314,15342,0,
15317,15304,15343,0,
15318,14967,15344,0,
15321,15288,15345,0,
15272,15317,15346,0,
15324,15314,15347,0,
15323,15322,15348,0,
15327,15314,15349,0,
15326,15299,15350,0,
15325,15299,15351,0,
15322,15323,15352,1,
15323,15303,15353,0,
14923,15320,15354,0,
15331,15305,15355,0,
15330,0,15356,2,
15217,15339,15357,0,
15334,15347,15358,0,
15337,15338,15359,0,
15320,15338,15360,0,
15075,15336,15361,0,
15218,15339,15362,0,
14995,15340,15363,1,
15319,15342,15364,0,
15320,15338,15365,0,
15343,15272,15366,0,
15222,15339,15367,0,
15345,15338,15368,0,
15222,15339,15369,0,
15304,15346,15370,1,
15347,15302,15371,0,
15351,15305,15372,0,
15350,15349,15373,0,
15195,15356,15374,0,
15354,15338,15375,0,
15229,15335,15376,0,
15302,15375,15377,1,
15364,15365,15378,0,
15357,0,15379,2,
15363,0,15380,2,
15359,15358,15381,0,
15000,15361,15382,1,
15037,15374,15383,1,
15298,15360,15384,1,
15362,0,15385,2,
15306,15366,15386,1,
15367,0,15387,2,
15299,15368,15388,1,
15369,15018,15389,0,
15348,15370,15390,0,
15360,14967,15391,0,
15371,14971,15392,0,
15370,15348,15393,1,
15371,14967,15394,0,
15353,15372,15395,0,
15360,14971,15396,0,
15375,15302,15397,0,
15057,15376,15398,1,
15390,15386,15399,0,
15398,0,15400,2,
15033,15379,15401,0,
15135,15378,15402,0,
15382,0,15403,2,
15341,15384,15404,0,
15206,15387,15405,0,
15314,15397,15406,1,
15344,15380,15407,0,
15377,15386,15408,0,
15378,15305,15409,1,
15380,15381,15410,1,
15215,15387,15411,0,
15389,0,15412,2,
15173,15378,15413,0,
15390,15386,15414,1,
15104,15380,15415,0,
15328,15378,15416,0,
15355,15384,15417,0,
15392,15391,15418,0,
15378,14971,15419,0,
15175,15378,15420,0,
15380,15312,15421,0,
15235,15385,15422,0,
15395,15400,15423,0,
14996,15401,15424,1,
15373,15417,15425,0,
15378,15407,15426,0,
15420,15421,15427,0,
15403,15383,15428,0,
15416,15415,15429,0,
15405,0,15430,2,
15382,15418,15431,1,
15400,14930,15432,0,
15419,15341,15433,1,
15399,15384,15434,0,
15406,15071,15435,0,
15411,0,15436,2,
15413,15407,15437,0,
15399,15384,15438,1,
15396,15403,15439,0,
15241,15412,15440,0,
15404,15380,15441,0,
15378,15407,15442,0,
14989,15422,15443,1,
15328,15424,15444,0,
15430,14930,15445,1,
15442,15178,15446,0,
15428,15406,15447,0,
15441,15424,15448,0,
15099,15430,15449,0,
15425,15400,15450,0,
15430,14930,15451,0,
15424,15429,15452,1,
15432,14989,15453,0,
15431,0,15454,2,
15426,15071,15455,0,
15434,15388,15456,0,
15172,15436,15457,0,
15400,15426,15458,1,
15388,15434,15459,1,
8764,15440,15460,1,
15439,15394,15461,0,
15456,15377,15462,0,
15444,15380,15463,0,
15460,0,15464,2,
15447,15448,15465,0,
15451,0,15466,2,
15408,15445,15467,0,
15383,15461,15468,1,
15433,15454,15469,0,
15445,15455,15470,1,
15452,15410,15471,0,
15424,15445,15472,0,
7027,15457,15473,1,
15450,15023,15474,0,
15450,15023,15475,0,
15021,15450,15476,0,
15021,15450,15477,0,
15456,15377,15478,1,
7764,15450,15479,0,
15449,0,15480,2,
15423,15467,15481,0,
15194,15480,15482,0,
15465,7751,15483,0,
8855,15473,15484,0,
15473,15437,15485,1,
15055,15466,15486,0,
15426,15464,15487,0,
15409,15468,15488,0,
7813,15465,15489,0,
15435,15471,15490,0,
15464,15427,15491,1,
15462,15406,15492,0,
15472,15410,15493,0,
7225,15473,15494,0,
7767,15473,15495,0,
7764,15473,15496,0,
7225,15473,15497,0,
15462,15406,15498,1,
15402,15463,15499,0,
7805,15465,15500,0,
15464,15473,15501,0,
8468,15482,15502,1,
15486,0,15503,2,
15453,15487,15504,0,
15488,15469,15505,0,
15465,15481,15506,0,
15492,15409,15507,0,
15450,15493,15508,0,
15495,15491,15509,0,
15496,15491,15510,0,
15476,15493,15511,0,
15475,15493,15512,0,
15474,15493,15513,0,
15494,15491,15514,0,
15409,15492,15515,1,
15477,15493,15516,0,
15497,15491,15517,0,
15465,15481,15518,0,
15493,15023,15519,0,
15479,15501,15520,0,
15499,0,15521,2,
15492,15505,15522,0,
15521,15443,15523,1,
15508,15491,15524,0,
15503,14987,15525,0,
15504,0,15526,2,
15490,15505,15527,0,
15507,15433,15528,0,
15520,15519,15529,0,
15433,15507,15530,1,
15510,15511,15531,0,
15514,15512,15532,0,
15509,15513,15533,0,
15517,15516,15534,0,
15502,15446,15535,1,
15535,0,15536,2,
5294,15534,15537,1,
5218,15533,15538,1,
5883,15531,15539,1,
15525,8764,15540,0,
15470,15523,15541,0,
15527,15462,15542,0,
15522,15410,15543,0,
15528,15454,15544,0,
15454,15528,15545,1,
5633,15529,15546,1,
15410,15522,15547,1,
5633,15532,15548,1,
15523,15485,15549,0,
8863,15524,15550,0,
15484,15523,15551,0,
15537,0,15552,2,
15548,0,15553,2,
15546,5294,15554,0,
15549,15550,15555,0,
15481,15536,15556,0,
15481,15536,15557,0,
15540,0,15558,2,
15536,7751,15559,0,
15541,15491,15560,0,
15542,15470,15561,0,
15543,15452,15562,0,
15543,15452,15563,1,
15542,15470,15564,1,
15468,15544,15565,1,
7788,15536,15566,0,
15524,15551,15567,0,
15538,0,15568,2,
15481,15536,15569,0,
15483,15557,15570,0,
6364,15567,15571,1,
15489,15556,15572,0,
15558,8844,15573,0,
15506,15559,15574,0,
15560,15462,15575,0,
15561,15523,15576,0,
15562,15458,15577,1,
15523,15561,15578,1,
15552,15553,15579,0,
15566,15518,15580,0,
15500,15569,15581,0,
15555,0,15582,2,
7002,15582,15583,0,
1557,15572,15584,1,
1929,15570,15585,1,
15571,345,15586,0,
15573,15526,15587,0,
1559,15580,15588,1,
1929,15574,15589,1,
15575,15527,15590,0,
15491,15576,15591,1,
1214,15581,15592,1,
15583,0,15593,2,
6073,15585,15594,0,
15586,0,15595,2,
15592,0,15596,2,
8193,15587,15597,1,
15584,0,15598,2,
8454,15592,15599,0,
15584,31,15600,0,
15588,0,15601,2,
15538,15593,15602,0,
15548,15593,15603,0,
15594,15596,15604,0,
15595,51,15605,0,
15537,15593,15606,0,
15599,15600,15607,0,
15589,15593,15608,0,
15588,15593,15609,0,
15597,0,15610,2,
15593,15596,15611,0,
15598,15593,15612,0,
15568,15601,15613,0,
15539,15593,15614,0,
15606,0,15615,2,
15603,0,15616,2,
15554,15604,15617,0,
15605,0,15618,2,
15602,0,15619,2,
15579,15613,15620,0,
15605,143,15621,0,
15590,15610,15622,0,
15611,0,15623,2,
15608,0,15624,2,
15612,0,15625,2,
15609,0,15626,2,
15610,15590,15627,1,
15614,0,15628,2,
15617,0,15629,2,
15622,15536,15630,0,
15621,0,15631,2,
15536,15622,15632,1,
15607,15620,15633,0,
1225,15629,15634,0,
173,15631,15635,0,
15618,15629,15636,0,
15485,15630,15637,1,
15633,0,15638,2,
140,15629,15639,0,
15636,0,15640,2,
15639,15631,15641,0,
15631,15634,15642,0,
15593,15638,15643,0,
15635,15616,15644,0,
15635,15623,15645,0,
15635,15625,15646,0,
15635,15624,15647,0,
15635,15626,15648,0,
15635,15615,15649,0,
15635,15619,15650,0,
15641,15628,15651,0,
15643,15636,15652,0,
15646,0,15653,2,
15648,0,15654,2,
15647,0,15655,2,
15645,0,15656,2,
15640,143,15657,0,
15641,0,15658,2,
15650,0,15659,2,
15644,0,15660,2,
15643,0,15661,2,
15649,0,15662,2,
15661,143,15663,0,
15652,15632,15664,0,
15652,15627,15665,0,
15652,15565,15666,0,
15652,15459,15667,0,
15652,15414,15668,0,
15652,15438,15669,0,
15652,15547,15670,0,
15652,15515,15671,0,
15652,15530,15672,0,
15652,15545,15673,0,
15652,15478,15674,0,
15652,15498,15675,0,
15652,15393,15676,0,
15652,15591,15677,0,
15652,15578,15678,0,
15652,15577,15679,0,
15652,15352,15680,0,
15652,15563,15681,0,
15652,15564,15682,0,
15652,15278,15683,0,
15652,15329,15684,0,
15652,15294,15685,0,
15652,15637,15686,0,
15651,0,15687,2,
15663,0,15688,2,
15688,15642,15689,0,
145,15688,15690,0,
15689,0,15691,2,
15690,0,15692,2,
0,0,15693,1,
15693,15683,15694,1,
15693,15685,15695,1,
15693,15684,15696,1,
15693,15680,15697,1,
15693,15676,15698,1,
15693,15668,15699,1,
15693,15669,15700,1,
15693,15667,15701,1,
15693,15674,15702,1,
15693,15675,15703,1,
15693,15671,15704,1,
15693,15672,15705,1,
15693,15673,15706,1,
15693,15666,15707,1,
15693,15670,15708,1,
15693,15681,15709,1,
15693,15679,15710,1,
15693,15682,15711,1,
15693,15678,15712,1,
15693,15677,15713,1,
15693,15665,15714,1,
15693,15664,15715,1,
15693,15686,15716,1,
15693,15656,15717,1,
15693,15653,15718,1,
15693,15654,15719,1,
15693,15655,15720,1,
15693,15660,15721,1,
15693,15659,15722,1,
15693,15662,15723,1,
15693,15687,15724,1,
