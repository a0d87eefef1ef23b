62,30,64,1,
61,29,65,1,
60,28,66,1,
59,27,67,1,
58,26,68,1,
57,25,69,1,
56,24,70,1,
55,23,71,0,
71,24,72,1,
70,72,73,0,
24,73,74,1,
74,25,75,1,
69,75,76,0,
25,76,77,1,
77,26,78,1,
68,78,79,0,
26,79,80,1,
80,27,81,1,
67,81,82,0,
27,82,83,1,
83,28,84,1,
66,84,85,0,
28,85,86,1,
86,29,87,1,
65,87,88,0,
29,88,89,1,
89,64,90,1,
89,30,91,1,
64,91,92,0,
30,92,93,1,
86,65,94,1,
83,66,95,1,
80,67,96,1,
77,68,97,1,
74,69,98,1,
71,70,99,1,
55,23,100,1,
99,100,101,0,
98,101,102,0,
97,102,103,0,
96,103,104,0,
95,104,105,0,
94,105,106,1,
95,104,107,1,
96,103,108,1,
97,102,109,1,
98,101,110,1,
99,100,111,1,
100,0,112,2,
111,112,113,0,
110,113,114,0,
109,114,115,0,
108,115,116,0,
107,116,117,0,
106,117,118,1,
106,117,119,0,
107,116,120,1,
108,115,121,1,
109,114,122,1,
110,113,123,1,
111,112,124,1,
33,0,125,2,
32,0,126,2,
125,126,127,0,
34,0,128,2,
35,0,129,2,
128,129,130,0,
130,0,131,2,
131,0,132,2,
127,132,133,0,
36,0,134,2,
37,0,135,2,
134,135,136,0,
38,0,137,2,
39,0,138,2,
137,138,139,0,
139,0,140,2,
140,0,141,2,
136,141,142,0,
142,0,143,2,
143,0,144,2,
133,144,145,0,
41,0,146,2,
40,0,147,2,
146,147,148,0,
42,0,149,2,
43,0,150,2,
149,150,151,0,
151,0,152,2,
152,0,153,2,
148,153,154,0,
44,0,155,2,
45,0,156,2,
155,156,157,0,
46,0,158,2,
47,0,159,2,
158,159,160,0,
160,0,161,2,
161,0,162,2,
157,162,163,0,
163,0,164,2,
164,0,165,2,
154,165,166,0,
166,0,167,2,
167,0,168,2,
145,168,169,0,
1,0,170,2,
0,0,171,2,
170,171,172,0,
2,0,173,2,
3,0,174,2,
173,174,175,0,
175,0,176,2,
176,0,177,2,
172,177,178,0,
4,0,179,2,
5,0,180,2,
179,180,181,0,
6,0,182,2,
7,0,183,2,
182,183,184,0,
184,0,185,2,
185,0,186,2,
181,186,187,0,
187,0,188,2,
188,0,189,2,
178,189,190,0,
9,0,191,2,
8,0,192,2,
191,192,193,0,
10,0,194,2,
11,0,195,2,
194,195,196,0,
196,0,197,2,
197,0,198,2,
193,198,199,0,
12,0,200,2,
13,0,201,2,
200,201,202,0,
14,0,203,2,
15,0,204,2,
203,204,205,0,
205,0,206,2,
206,0,207,2,
202,207,208,0,
208,0,209,2,
209,0,210,2,
199,210,211,0,
211,0,212,2,
212,0,213,2,
190,213,214,0,
169,214,215,1,
190,212,216,0,
145,167,217,0,
217,216,218,1,
16,0,219,2,
17,0,220,2,
219,220,221,0,
18,0,222,2,
19,0,223,2,
222,223,224,0,
224,0,225,2,
225,0,226,2,
221,226,227,0,
227,0,228,2,
209,0,229,2,
228,229,230,0,
230,0,231,2,
231,199,232,0,
232,0,233,2,
188,0,234,2,
233,234,235,0,
235,0,236,2,
178,236,237,0,
48,0,238,2,
49,0,239,2,
238,239,240,0,
50,0,241,2,
51,0,242,2,
241,242,243,0,
243,0,244,2,
244,0,245,2,
240,245,246,0,
246,0,247,2,
164,0,248,2,
247,248,249,0,
249,0,250,2,
250,154,251,0,
251,0,252,2,
143,0,253,2,
252,253,254,0,
254,0,255,2,
133,255,256,0,
256,237,257,1,
21,0,258,2,
20,0,259,2,
258,259,260,0,
260,0,261,2,
225,0,262,2,
261,262,263,0,
263,0,264,2,
264,221,265,0,
265,0,266,2,
206,0,267,2,
266,267,268,0,
268,0,269,2,
269,202,270,0,
270,0,271,2,
197,0,272,2,
271,272,273,0,
273,0,274,2,
274,193,275,0,
275,0,276,2,
185,0,277,2,
276,277,278,0,
278,0,279,2,
279,181,280,0,
280,0,281,2,
176,0,282,2,
281,282,283,0,
283,0,284,2,
172,284,285,0,
53,0,286,2,
52,0,287,2,
286,287,288,0,
288,0,289,2,
244,0,290,2,
289,290,291,0,
291,0,292,2,
292,240,293,0,
293,0,294,2,
161,0,295,2,
294,295,296,0,
296,0,297,2,
297,157,298,0,
298,0,299,2,
152,0,300,2,
299,300,301,0,
301,0,302,2,
302,148,303,0,
303,0,304,2,
140,0,305,2,
304,305,306,0,
306,0,307,2,
307,136,308,0,
308,0,309,2,
131,0,310,2,
309,310,311,0,
311,0,312,2,
127,312,313,0,
313,285,314,1,
5,0,315,2,
13,0,316,2,
17,0,317,2,
258,22,318,0,
318,0,319,2,
259,319,320,0,
320,0,321,2,
223,321,322,0,
322,0,323,2,
222,323,324,0,
324,0,325,2,
317,325,326,0,
326,0,327,2,
219,327,328,0,
328,0,329,2,
204,329,330,0,
330,0,331,2,
203,331,332,0,
332,0,333,2,
316,333,334,0,
334,0,335,2,
200,335,336,0,
336,0,337,2,
195,337,338,0,
338,0,339,2,
194,339,340,0,
340,0,341,2,
191,341,342,0,
342,0,343,2,
192,343,344,0,
344,0,345,2,
183,345,346,0,
346,0,347,2,
182,347,348,0,
348,0,349,2,
315,349,350,0,
350,0,351,2,
179,351,352,0,
352,0,353,2,
174,353,354,0,
354,0,355,2,
173,355,356,0,
356,0,357,2,
170,357,358,0,
358,0,359,2,
359,171,360,0,
37,0,361,2,
45,0,362,2,
49,0,363,2,
286,54,364,0,
364,0,365,2,
287,365,366,0,
366,0,367,2,
242,367,368,0,
368,0,369,2,
241,369,370,0,
370,0,371,2,
363,371,372,0,
372,0,373,2,
238,373,374,0,
374,0,375,2,
159,375,376,0,
376,0,377,2,
158,377,378,0,
378,0,379,2,
362,379,380,0,
380,0,381,2,
155,381,382,0,
382,0,383,2,
150,383,384,0,
384,0,385,2,
149,385,386,0,
386,0,387,2,
146,387,388,0,
388,0,389,2,
147,389,390,0,
390,0,391,2,
138,391,392,0,
392,0,393,2,
137,393,394,0,
394,0,395,2,
361,395,396,0,
396,0,397,2,
134,397,398,0,
398,0,399,2,
129,399,400,0,
400,0,401,2,
128,401,402,0,
402,0,403,2,
125,403,404,0,
404,0,405,2,
405,126,406,0,
360,406,407,0,
407,285,408,1,
314,408,409,0,
285,409,410,1,
410,237,411,1,
257,411,412,0,
237,412,413,1,
413,216,414,1,
218,414,415,0,
216,415,416,1,
416,215,417,1,
416,214,418,1,
215,418,419,0,
214,419,420,1,
413,218,421,1,
410,257,422,1,
407,314,423,1,
33,20,424,0,
424,0,425,2,
128,0,426,2,
19,426,427,0,
425,427,428,1,
428,0,429,2,
361,0,430,2,
15,430,431,0,
170,0,432,2,
51,432,433,0,
431,433,434,0,
434,0,435,2,
287,0,436,2,
0,436,437,0,
437,431,438,0,
438,0,439,2,
435,439,440,0,
437,433,441,0,
441,0,442,2,
440,442,443,0,
443,0,444,2,
429,444,445,0,
445,0,446,2,
362,0,447,2,
7,447,448,0,
182,0,449,2,
46,449,450,0,
448,450,451,0,
451,0,452,2,
137,0,453,2,
14,453,454,0,
454,448,455,0,
455,0,456,2,
452,456,457,0,
454,450,458,0,
458,0,459,2,
457,459,460,0,
460,0,461,2,
429,461,462,0,
462,0,463,2,
446,463,464,0,
443,0,465,2,
461,465,466,0,
466,0,467,2,
464,467,468,0,
468,0,469,2,
363,0,470,2,
4,470,471,0,
6,47,472,0,
471,472,473,0,
473,0,474,2,
219,0,475,2,
37,475,476,0,
472,476,477,0,
477,0,478,2,
474,478,479,0,
476,471,480,0,
480,0,481,2,
479,481,482,0,
482,0,483,2,
222,0,484,2,
35,484,485,0,
3,50,486,0,
485,486,487,0,
487,0,488,2,
238,0,489,2,
5,489,490,0,
486,490,491,0,
491,0,492,2,
488,492,493,0,
490,485,494,0,
494,0,495,2,
493,495,496,0,
483,496,497,1,
137,0,498,2,
15,498,499,0,
39,14,500,0,
499,500,501,0,
501,0,502,2,
183,0,503,2,
46,503,504,0,
500,504,505,0,
505,0,506,2,
502,506,507,0,
504,499,508,0,
508,0,509,2,
507,509,510,0,
510,0,511,2,
497,511,512,1,
512,0,513,2,
149,0,514,2,
12,514,515,0,
203,0,516,2,
40,516,517,0,
515,517,518,1,
518,0,519,2,
41,13,520,0,
519,520,521,1,
521,0,522,2,
204,0,523,2,
39,523,524,0,
158,0,525,2,
8,525,526,0,
524,526,527,1,
527,0,528,2,
45,9,529,0,
528,529,530,1,
530,0,531,2,
522,531,532,1,
532,0,533,2,
150,0,534,2,
11,534,535,0,
171,0,536,2,
54,536,537,0,
535,537,538,1,
538,0,539,2,
44,10,540,0,
539,540,541,1,
541,0,542,2,
533,542,543,1,
543,0,544,2,
513,544,545,1,
316,0,546,2,
40,546,547,0,
12,41,548,0,
547,548,549,0,
549,0,550,2,
192,0,551,2,
45,551,552,0,
548,552,553,0,
553,0,554,2,
550,554,555,0,
552,547,556,0,
556,0,557,2,
555,557,558,0,
425,0,559,2,
427,559,560,0,
558,560,561,1,
561,0,562,2,
155,0,563,2,
9,563,564,0,
43,10,565,0,
564,565,566,0,
566,0,567,2,
149,0,568,2,
11,568,569,0,
565,569,570,0,
570,0,571,2,
567,571,572,0,
569,564,573,0,
573,0,574,2,
572,574,575,0,
575,0,576,2,
562,576,577,1,
577,0,578,2,
545,578,579,1,
579,0,580,2,
469,580,581,0,
581,0,582,2,
476,471,583,1,
583,0,584,2,
584,472,585,1,
585,0,586,2,
195,0,587,2,
41,587,588,0,
194,0,589,2,
42,589,590,0,
588,590,591,0,
591,0,592,2,
191,0,593,2,
43,593,594,0,
590,594,595,0,
595,0,596,2,
592,596,597,0,
594,588,598,0,
598,0,599,2,
597,599,600,0,
600,0,601,2,
586,601,602,0,
602,0,603,2,
128,0,604,2,
18,604,605,0,
19,33,606,0,
606,0,607,2,
607,0,608,2,
605,608,609,0,
586,609,610,0,
610,0,611,2,
603,611,612,0,
601,609,613,0,
613,0,614,2,
612,614,615,0,
615,0,616,2,
287,0,617,2,
1,617,618,0,
173,0,619,2,
51,619,620,0,
618,620,621,1,
621,0,622,2,
53,0,623,0,
622,623,624,1,
624,0,625,2,
317,0,626,2,
36,626,627,0,
625,627,628,0,
628,0,629,2,
258,0,630,2,
32,630,631,0,
631,627,632,0,
632,0,633,2,
629,633,634,0,
625,631,635,0,
635,0,636,2,
634,636,637,0,
616,637,638,1,
287,0,639,2,
2,639,640,0,
174,0,641,2,
51,641,642,0,
640,642,643,1,
643,0,644,2,
1,53,645,0,
644,645,646,1,
646,0,647,2,
315,0,648,2,
49,648,649,0,
6,48,650,0,
649,650,651,1,
651,0,652,2,
241,0,653,2,
4,653,654,0,
652,654,655,1,
655,0,656,2,
647,656,657,1,
657,0,658,2,
159,0,659,2,
7,659,660,0,
22,0,661,2,
661,0,662,2,
32,662,663,0,
660,663,664,1,
664,0,665,2,
38,16,666,0,
665,666,667,1,
667,0,668,2,
658,668,669,1,
669,0,670,2,
638,670,671,1,
671,0,672,2,
469,672,673,0,
673,0,674,2,
582,674,675,0,
579,671,676,1,
579,671,677,0,
676,677,678,1,
675,678,679,0,
679,0,680,2,
258,0,681,2,
33,681,682,0,
20,34,683,0,
683,0,684,2,
682,684,685,1,
620,623,686,0,
686,0,687,2,
623,618,688,0,
688,0,689,2,
687,689,690,0,
618,620,691,0,
691,0,692,2,
690,692,693,0,
693,0,694,2,
685,694,695,1,
695,0,696,2,
317,0,697,2,
37,697,698,0,
35,19,699,0,
698,699,700,1,
700,0,701,2,
134,0,702,2,
18,702,703,0,
701,703,704,1,
696,704,705,1,
705,0,706,2,
504,499,707,1,
707,0,708,2,
708,500,709,1,
709,0,710,2,
569,564,711,1,
711,0,712,2,
712,565,713,1,
713,0,714,2,
710,714,715,0,
715,0,716,2,
552,547,717,1,
717,0,718,2,
718,548,719,1,
719,0,720,2,
710,720,721,0,
721,0,722,2,
716,722,723,0,
714,720,724,0,
724,0,725,2,
723,725,726,0,
726,0,727,2,
706,727,728,0,
728,0,729,2,
138,0,730,2,
13,730,731,0,
44,8,732,0,
731,732,733,0,
733,0,734,2,
147,0,735,2,
12,735,736,0,
732,736,737,0,
737,0,738,2,
734,738,739,0,
736,731,740,0,
740,0,741,2,
739,741,742,0,
742,0,743,2,
134,0,744,2,
16,744,745,0,
5,47,746,0,
745,746,747,0,
747,0,748,2,
317,0,749,2,
35,749,750,0,
746,750,751,0,
751,0,752,2,
748,752,753,0,
750,745,754,0,
754,0,755,2,
753,755,756,0,
756,0,757,2,
743,757,758,0,
758,0,759,2,
179,0,760,2,
48,760,761,0,
2,50,762,0,
761,762,763,0,
763,0,764,2,
174,0,765,2,
49,765,766,0,
762,766,767,0,
767,0,768,2,
764,768,769,0,
766,761,770,0,
770,0,771,2,
769,771,772,0,
772,0,773,2,
756,0,774,2,
773,774,775,0,
775,0,776,2,
759,776,777,0,
743,773,778,0,
778,0,779,2,
777,779,780,0,
780,0,781,2,
727,781,782,0,
782,0,783,2,
729,783,784,0,
780,0,785,2,
706,785,786,0,
786,0,787,2,
784,787,788,0,
680,788,789,1,
531,542,790,0,
790,0,791,2,
531,522,792,0,
792,0,793,2,
791,793,794,0,
542,522,795,0,
795,0,796,2,
794,796,797,0,
496,0,798,2,
483,798,799,0,
799,0,800,2,
496,0,801,2,
511,801,802,0,
802,0,803,2,
800,803,804,0,
483,511,805,0,
805,0,806,2,
804,806,807,0,
797,807,808,1,
808,0,809,2,
540,537,810,0,
810,0,811,2,
535,540,812,0,
812,0,813,2,
811,813,814,0,
535,537,815,0,
815,0,816,2,
814,816,817,0,
817,0,818,2,
684,0,819,2,
682,819,820,0,
818,820,821,1,
238,0,822,2,
7,822,823,0,
222,0,824,2,
37,824,825,0,
823,825,826,1,
826,0,827,2,
17,38,828,0,
827,828,829,1,
821,829,830,1,
830,0,831,2,
809,831,832,1,
832,0,833,2,
656,668,834,0,
834,0,835,2,
656,647,836,0,
836,0,837,2,
835,837,838,0,
668,647,839,0,
839,0,840,2,
838,840,841,0,
841,0,842,2,
558,0,843,2,
560,843,844,0,
844,0,845,2,
576,560,846,0,
846,0,847,2,
845,847,848,0,
558,0,849,2,
576,849,850,0,
850,0,851,2,
848,851,852,0,
842,852,853,1,
520,517,854,0,
854,0,855,2,
515,520,856,0,
856,0,857,2,
855,857,858,0,
515,517,859,0,
859,0,860,2,
858,860,861,0,
861,0,862,2,
529,526,863,0,
863,0,864,2,
524,529,865,0,
865,0,866,2,
864,866,867,0,
524,526,868,0,
868,0,869,2,
867,869,870,0,
862,870,871,1,
219,0,872,2,
39,872,873,0,
159,0,874,2,
8,874,875,0,
873,875,876,1,
876,0,877,2,
15,40,878,0,
877,878,879,1,
879,0,880,2,
871,880,881,1,
881,0,882,2,
853,882,883,1,
833,883,884,1,
884,0,885,2,
223,0,886,2,
36,886,887,0,
887,126,888,1,
20,35,889,0,
888,889,890,1,
890,0,891,2,
654,650,892,0,
892,0,893,2,
654,649,894,0,
894,0,895,2,
893,895,896,0,
650,649,897,0,
897,0,898,2,
896,898,899,0,
891,899,900,1,
900,0,901,2,
703,699,902,0,
902,0,903,2,
703,698,904,0,
904,0,905,2,
903,905,906,0,
699,698,907,0,
907,0,908,2,
906,908,909,0,
909,0,910,2,
666,663,911,0,
911,0,912,2,
660,666,913,0,
913,0,914,2,
912,914,915,0,
660,663,916,0,
916,0,917,2,
915,917,918,0,
910,918,919,1,
146,0,920,2,
14,920,921,0,
158,0,922,2,
9,922,923,0,
921,923,924,1,
924,0,925,2,
13,42,926,0,
925,926,927,1,
927,0,928,2,
919,928,929,1,
901,929,930,1,
930,0,931,2,
885,931,932,1,
789,932,933,1,
933,0,934,2,
601,609,935,1,
935,586,936,1,
259,0,937,2,
32,937,938,0,
437,433,939,1,
939,0,940,2,
940,431,941,1,
941,0,942,2,
938,942,943,0,
943,0,944,2,
766,761,945,1,
945,0,946,2,
946,762,947,1,
947,0,948,2,
948,938,949,0,
949,0,950,2,
944,950,951,0,
948,942,952,0,
952,0,953,2,
951,953,954,0,
936,954,955,1,
627,631,956,1,
956,0,957,2,
957,625,958,1,
958,0,959,2,
955,959,960,1,
960,0,961,2,
750,745,962,1,
962,0,963,2,
963,746,964,1,
964,0,965,2,
174,0,966,2,
48,966,967,0,
170,0,968,2,
50,968,969,0,
967,969,970,0,
970,0,971,2,
363,0,972,2,
2,972,973,0,
969,973,974,0,
974,0,975,2,
971,975,976,0,
973,967,977,0,
977,0,978,2,
976,978,979,0,
979,0,980,2,
965,980,981,0,
981,0,982,2,
607,605,983,1,
983,0,984,2,
979,0,985,2,
984,985,986,0,
986,0,987,2,
982,987,988,0,
984,965,989,0,
989,0,990,2,
988,990,991,0,
991,0,992,2,
961,992,993,0,
993,0,994,2,
461,443,995,1,
995,429,996,1,
996,0,997,2,
992,997,998,0,
998,0,999,2,
994,999,1000,0,
996,0,1001,2,
961,1001,1002,0,
1002,0,1003,2,
1000,1003,1004,0,
1004,0,1005,2,
182,0,1006,2,
45,1006,1007,0,
155,0,1008,2,
7,1008,1009,0,
1007,1009,1010,0,
1010,0,1011,2,
316,0,1012,2,
38,1012,1013,0,
1009,1013,1014,0,
1014,0,1015,2,
1011,1015,1016,0,
1013,1007,1017,0,
1017,0,1018,2,
1016,1018,1019,0,
1019,0,1020,2,
223,0,1021,2,
32,1021,1022,0,
134,0,1023,2,
15,1023,1024,0,
1022,1024,1025,0,
1025,0,1026,2,
219,0,1027,2,
35,1027,1028,0,
1024,1028,1029,0,
1029,0,1030,2,
1026,1030,1031,0,
1028,1022,1032,0,
1032,0,1033,2,
1031,1033,1034,0,
1034,0,1035,2,
1020,1035,1036,0,
1036,0,1037,2,
361,0,1038,2,
14,1038,1039,0,
179,0,1040,2,
47,1040,1041,0,
1039,1041,1042,0,
1042,0,1043,2,
158,0,1044,2,
5,1044,1045,0,
1041,1045,1046,0,
1046,0,1047,2,
1043,1047,1048,0,
1045,1039,1049,0,
1049,0,1050,2,
1048,1050,1051,0,
1051,1034,1052,1,
1051,1034,1053,0,
1052,1053,1054,1,
1037,1054,1055,0,
1051,0,1056,2,
1020,1056,1057,0,
1057,0,1058,2,
1055,1058,1059,0,
1059,0,1060,2,
34,17,1061,0,
18,33,1062,0,
1062,0,1063,2,
1063,0,1064,2,
1061,1064,1065,0,
736,731,1066,1,
1066,0,1067,2,
1067,732,1068,1,
1068,0,1069,2,
1065,1069,1070,0,
1070,0,1071,2,
454,450,1072,1,
1072,0,1073,2,
1073,448,1074,1,
1074,0,1075,2,
1075,1065,1076,0,
1076,0,1077,2,
1071,1077,1078,0,
1075,1069,1079,0,
1079,0,1080,2,
1078,1080,1081,0,
1081,0,1082,2,
1060,1082,1083,0,
1083,0,1084,2,
594,588,1085,1,
1085,0,1086,2,
1086,590,1087,1,
1087,0,1088,2,
200,0,1089,2,
39,1089,1090,0,
195,0,1091,2,
40,1091,1092,0,
1090,1092,1093,0,
1093,0,1094,2,
146,0,1095,2,
10,1095,1096,0,
1092,1096,1097,0,
1097,0,1098,2,
1094,1098,1099,0,
1096,1090,1100,0,
1100,0,1101,2,
1099,1101,1102,0,
1102,0,1103,2,
1088,1103,1104,0,
1104,0,1105,2,
171,0,1106,2,
51,1106,1107,0,
191,0,1108,2,
42,1108,1109,0,
1107,1109,1110,0,
1110,0,1111,2,
192,0,1112,2,
43,1112,1113,0,
1109,1113,1114,0,
1114,0,1115,2,
1111,1115,1116,0,
1113,1107,1117,0,
1117,0,1118,2,
1116,1118,1119,0,
1119,0,1120,2,
1120,1088,1121,0,
1121,0,1122,2,
1105,1122,1123,0,
1102,0,1124,2,
1120,1124,1125,0,
1125,0,1126,2,
1123,1126,1127,0,
1127,0,1128,2,
1081,0,1129,2,
1128,1129,1130,0,
1130,0,1131,2,
1084,1131,1132,0,
1060,1128,1133,0,
1133,0,1134,2,
1132,1134,1135,0,
1135,0,1136,2,
1005,1136,1137,0,
1137,0,1138,2,
671,469,1139,1,
1139,0,1140,2,
1140,579,1141,1,
1141,0,1142,2,
1135,0,1143,2,
1142,1143,1144,0,
1144,0,1145,2,
1138,1145,1146,0,
1005,1142,1147,0,
1147,0,1148,2,
1146,1148,1149,0,
1149,0,1150,2,
780,727,1151,1,
1151,706,1152,1,
1152,0,1153,2,
490,485,1154,1,
1154,0,1155,2,
1155,486,1156,1,
1156,0,1157,2,
720,710,1158,1,
1158,0,1159,2,
1159,714,1160,1,
1160,0,1161,2,
1157,1161,1162,0,
1162,0,1163,2,
743,756,1164,1,
1164,773,1165,1,
1165,0,1166,2,
1157,1166,1167,0,
1167,0,1168,2,
1163,1168,1169,0,
1165,0,1170,2,
1161,1170,1171,0,
1171,0,1172,2,
1169,1172,1173,0,
1173,0,1174,2,
1153,1174,1175,0,
1175,0,1176,2,
954,0,1177,2,
959,1177,1178,0,
1178,0,1179,2,
954,0,1180,2,
936,1180,1181,0,
1181,0,1182,2,
1179,1182,1183,0,
959,936,1184,0,
1184,0,1185,2,
1183,1185,1186,0,
1186,0,1187,2,
1174,1187,1188,0,
1188,0,1189,2,
1176,1189,1190,0,
1186,0,1191,2,
1153,1191,1192,0,
1192,0,1193,2,
1190,1193,1194,0,
1150,1194,1195,1,
637,0,1196,2,
616,1196,1197,0,
1197,0,1198,2,
637,0,1199,2,
670,1199,1200,0,
1200,0,1201,2,
1198,1201,1202,0,
670,616,1203,0,
1203,0,1204,2,
1202,1204,1205,0,
1205,0,1206,2,
578,0,1207,2,
513,1207,1208,0,
1208,0,1209,2,
513,544,1210,0,
1210,0,1211,2,
1209,1211,1212,0,
578,0,1213,2,
544,1213,1214,0,
1214,0,1215,2,
1212,1215,1216,0,
1206,1216,1217,1,
661,0,1218,2,
33,1218,1219,0,
21,34,1220,0,
1220,0,1221,2,
1219,1221,1222,1,
642,645,1223,0,
1223,0,1224,2,
645,640,1225,0,
1225,0,1226,2,
1224,1226,1227,0,
640,642,1228,0,
1228,0,1229,2,
1227,1229,1230,0,
1222,1230,1231,1,
194,0,1232,2,
45,1232,1233,0,
150,0,1234,2,
12,1234,1235,0,
1233,1235,1236,1,
1236,0,1237,2,
44,11,1238,0,
1237,1238,1239,1,
1239,0,1240,2,
1231,1240,1241,1,
1241,0,1242,2,
704,0,1243,2,
694,1243,1244,0,
1244,0,1245,2,
685,0,1246,2,
694,1246,1247,0,
1247,0,1248,2,
1245,1248,1249,0,
685,704,1250,1,
685,704,1251,0,
1250,1251,1252,1,
1249,1252,1253,0,
1242,1253,1254,1,
1254,0,1255,2,
179,0,1256,2,
51,1256,1257,0,
241,0,1258,2,
5,1258,1259,0,
1257,1259,1260,1,
1260,0,1261,2,
52,3,1262,0,
1261,1262,1263,1,
1263,0,1264,2,
363,0,1265,2,
6,1265,1266,0,
1264,1266,1267,1,
1267,0,1268,2,
2,53,1269,0,
1269,0,1270,2,
1270,171,1271,1,
1271,0,1272,2,
170,0,1273,2,
54,1273,1274,0,
1272,1274,1275,1,
1275,0,1276,2,
1268,1276,1277,1,
1277,0,1278,2,
1255,1278,1279,1,
1279,0,1280,2,
1217,1280,1281,1,
1281,0,1282,2,
1195,1282,1283,1,
1283,0,1284,2,
934,1284,1285,0,
1285,0,1286,2,
948,938,1287,1,
1287,0,1288,2,
1288,942,1289,1,
1289,0,1290,2,
1096,1090,1291,1,
1291,0,1292,2,
1292,1092,1293,1,
1293,0,1294,2,
171,0,1295,2,
50,1295,1296,0,
192,0,1297,2,
42,1297,1298,0,
1296,1298,1299,0,
1299,0,1300,2,
146,0,1301,2,
9,1301,1302,0,
1298,1302,1303,0,
1303,0,1304,2,
1300,1304,1305,0,
1302,1296,1306,0,
1306,0,1307,2,
1305,1307,1308,0,
1308,0,1309,2,
1294,1309,1310,0,
1310,0,1311,2,
34,16,1312,0,
17,33,1313,0,
1313,0,1314,2,
1314,0,1315,2,
1312,1315,1316,0,
1294,1316,1317,0,
1317,0,1318,2,
1311,1318,1319,0,
1309,1316,1320,0,
1320,0,1321,2,
1319,1321,1322,0,
1322,0,1323,2,
1290,1323,1324,0,
1324,0,1325,2,
1013,1007,1326,1,
1326,0,1327,2,
1327,1009,1328,1,
1328,0,1329,2,
1045,1039,1330,1,
1330,0,1331,2,
1331,1041,1332,1,
1332,0,1333,2,
1329,1333,1334,0,
1334,0,1335,2,
973,967,1336,1,
1336,0,1337,2,
1337,969,1338,1,
1338,0,1339,2,
1333,1339,1340,0,
1340,0,1341,2,
1335,1341,1342,0,
1329,1339,1343,0,
1343,0,1344,2,
1342,1344,1345,0,
1345,0,1346,2,
1346,1290,1347,0,
1347,0,1348,2,
1325,1348,1349,0,
1322,0,1350,2,
1346,1350,1351,0,
1351,0,1352,2,
1349,1352,1353,0,
1353,0,1354,2,
1165,1157,1355,1,
1355,0,1356,2,
1356,1161,1357,1,
1354,1357,1358,0,
1358,0,1359,2,
1074,1065,1360,1,
1360,1069,1361,1,
1361,0,1362,2,
1019,1034,1363,1,
1363,0,1364,2,
1364,1051,1365,1,
1365,0,1366,2,
1366,0,1367,2,
1362,1367,1368,0,
1368,0,1369,2,
1119,1102,1370,1,
1370,0,1371,2,
1371,1088,1372,1,
1366,1372,1373,1,
1366,1372,1374,0,
1373,1374,1375,1,
1369,1375,1376,0,
1372,0,1377,2,
1362,1377,1378,0,
1378,0,1379,2,
1376,1379,1380,0,
1380,0,1381,2,
1357,1381,1382,0,
1382,0,1383,2,
1359,1383,1384,0,
1380,0,1385,2,
1354,1385,1386,0,
1386,0,1387,2,
1384,1387,1388,0,
996,992,1389,1,
1389,0,1390,2,
1390,961,1391,1,
1391,0,1392,2,
1392,0,1393,2,
1060,1081,1394,1,
1394,1128,1395,1,
1395,0,1396,2,
1393,1396,1397,0,
1397,0,1398,2,
1113,1107,1399,1,
1399,0,1400,2,
1400,1109,1401,1,
1401,0,1402,2,
361,0,1403,2,
13,1403,1404,0,
200,0,1405,2,
38,1405,1406,0,
1404,1406,1407,0,
1407,0,1408,2,
155,0,1409,2,
6,1409,1410,0,
1406,1410,1411,0,
1411,0,1412,2,
1408,1412,1413,0,
1410,1404,1414,0,
1414,0,1415,2,
1413,1415,1416,0,
1416,0,1417,2,
1402,1417,1418,0,
1418,0,1419,2,
150,0,1420,2,
7,1420,1421,0,
194,0,1422,2,
40,1422,1423,0,
1421,1423,1424,0,
1424,0,1425,2,
138,0,1426,2,
11,1426,1427,0,
1423,1427,1428,0,
1428,0,1429,2,
1425,1429,1430,0,
1427,1421,1431,0,
1431,0,1432,2,
1430,1432,1433,0,
1433,0,1434,2,
1434,1402,1435,0,
1435,0,1436,2,
1419,1436,1437,0,
1416,0,1438,2,
1434,1438,1439,0,
1439,0,1440,2,
1437,1440,1441,0,
1441,0,1442,2,
174,0,1443,2,
47,1443,1444,0,
170,0,1445,2,
49,1445,1446,0,
1444,1446,1447,0,
1447,0,1448,2,
238,0,1449,2,
2,1449,1450,0,
1446,1450,1451,0,
1451,0,1452,2,
1448,1452,1453,0,
1450,1444,1454,0,
1454,0,1455,2,
1453,1455,1456,0,
1063,1061,1457,1,
1456,1457,1458,1,
1456,1457,1459,0,
1458,1459,1460,1,
1028,1022,1461,1,
1461,0,1462,2,
1462,1024,1463,1,
1463,0,1464,2,
1456,0,1465,2,
1464,1465,1466,0,
1466,0,1467,2,
1460,1467,1468,0,
1457,0,1469,2,
1464,1469,1470,0,
1470,0,1471,2,
1468,1471,1472,0,
1472,0,1473,2,
1442,1473,1474,0,
1474,0,1475,2,
983,979,1476,1,
1476,965,1477,1,
1477,1442,1478,0,
1478,0,1479,2,
1475,1479,1480,0,
1472,0,1481,2,
1477,1481,1482,0,
1482,0,1483,2,
1480,1483,1484,0,
1484,0,1485,2,
1396,1485,1486,0,
1486,0,1487,2,
1398,1487,1488,0,
1484,0,1489,2,
1393,1489,1490,0,
1490,0,1491,2,
1488,1491,1492,0,
1388,1492,1493,1,
1388,1492,1494,0,
1493,1494,1495,1,
1186,1174,1496,1,
1496,1153,1497,1,
1497,0,1498,2,
1388,0,1499,2,
1498,1499,1500,0,
1500,0,1501,2,
1495,1501,1502,0,
1492,0,1503,2,
1498,1503,1504,0,
1504,0,1505,2,
1502,1505,1506,0,
1506,0,1507,2,
1507,934,1508,0,
1508,0,1509,2,
1286,1509,1510,0,
1283,0,1511,2,
1507,1511,1512,0,
1512,0,1513,2,
1510,1513,1514,0,
1514,0,1515,2,
1396,1484,1516,1,
1516,1392,1517,1,
1302,1296,1518,1,
1518,0,1519,2,
1519,1298,1520,1,
1520,0,1521,2,
195,0,1522,2,
38,1522,1523,0,
194,0,1524,2,
39,1524,1525,0,
1523,1525,1526,0,
1526,0,1527,2,
150,0,1528,2,
6,1528,1529,0,
1525,1529,1530,0,
1530,0,1531,2,
1527,1531,1532,0,
1529,1523,1533,0,
1533,0,1534,2,
1532,1534,1535,0,
1535,0,1536,2,
1521,1536,1537,0,
1537,0,1538,2,
191,0,1539,2,
40,1539,1540,0,
192,0,1541,2,
41,1541,1542,0,
1540,1542,1543,0,
1543,0,1544,2,
149,0,1545,2,
7,1545,1546,0,
1542,1546,1547,0,
1547,0,1548,2,
1544,1548,1549,0,
1546,1540,1550,0,
1550,0,1551,2,
1549,1551,1552,0,
1552,0,1553,2,
1553,1521,1554,0,
1554,0,1555,2,
1538,1555,1556,0,
1535,0,1557,2,
1553,1557,1558,0,
1558,0,1559,2,
1556,1559,1560,0,
1560,0,1561,2,
362,0,1562,2,
5,1562,1563,0,
134,0,1564,2,
14,1564,1565,0,
1563,1565,1566,1,
1566,0,1567,2,
179,0,1568,2,
46,1568,1569,0,
1567,1569,1570,1,
1570,0,1571,2,
317,0,1572,2,
32,1572,1573,0,
174,0,1574,2,
46,1574,1575,0,
1573,1575,1576,0,
1576,0,1577,2,
362,0,1578,2,
4,1578,1579,0,
1575,1579,1580,0,
1580,0,1581,2,
1577,1581,1582,0,
1579,1573,1583,0,
1583,0,1584,2,
1582,1584,1585,0,
1585,0,1586,2,
1571,1586,1587,0,
1587,0,1588,2,
134,0,1589,2,
13,1589,1590,0,
315,0,1591,2,
44,1591,1592,0,
1590,1592,1593,0,
1593,0,1594,2,
200,0,1595,2,
37,1595,1596,0,
1592,1596,1597,0,
1597,0,1598,2,
1594,1598,1599,0,
1596,1590,1600,0,
1600,0,1601,2,
1599,1601,1602,0,
1602,0,1603,2,
1586,1603,1604,0,
1604,0,1605,2,
1588,1605,1606,0,
1571,1603,1607,0,
1607,0,1608,2,
1606,1608,1609,0,
1609,0,1610,2,
1561,1610,1611,0,
1611,0,1612,2,
1464,1456,1613,1,
1613,0,1614,2,
1614,1457,1615,1,
1615,0,1616,2,
1616,1561,1617,0,
1617,0,1618,2,
1612,1618,1619,0,
1609,0,1620,2,
1616,1620,1621,0,
1621,0,1622,2,
1619,1622,1623,0,
1623,0,1624,2,
1309,1316,1625,1,
1625,1293,1626,1,
1626,0,1627,2,
1565,1569,1628,0,
1628,0,1629,2,
1569,1563,1630,0,
1630,0,1631,2,
1629,1631,1632,0,
1565,1563,1633,0,
1633,0,1634,2,
1632,1634,1635,0,
1635,0,1636,2,
1627,1636,1637,0,
1637,0,1638,2,
1433,1416,1639,1,
1639,0,1640,2,
1640,1402,1641,1,
1641,0,1642,2,
1636,1642,1643,0,
1643,0,1644,2,
1638,1644,1645,0,
1641,0,1646,2,
1627,1646,1647,0,
1647,0,1648,2,
1645,1648,1649,0,
1649,0,1650,2,
1624,1650,1651,0,
1651,0,1652,2,
1333,1339,1653,1,
1653,0,1654,2,
1654,1328,1655,1,
34,15,1656,0,
16,33,1657,0,
1657,0,1658,2,
1658,0,1659,2,
1656,1659,1660,0,
1410,1404,1661,1,
1661,0,1662,2,
1662,1406,1663,1,
1663,0,1664,2,
1660,1664,1665,0,
1665,0,1666,2,
1427,1421,1667,1,
1667,0,1668,2,
1668,1423,1669,1,
1669,0,1670,2,
1664,1670,1671,0,
1671,0,1672,2,
1666,1672,1673,0,
1670,1660,1674,0,
1674,0,1675,2,
1673,1675,1676,0,
1676,0,1677,2,
1655,1677,1678,0,
1678,0,1679,2,
204,0,1680,2,
35,1680,1681,0,
1450,1444,1682,1,
1682,0,1683,2,
1683,1446,1684,1,
1684,0,1685,2,
1681,1685,1686,0,
1686,0,1687,2,
222,0,1688,2,
32,1688,1689,0,
1689,1681,1690,0,
1690,0,1691,2,
1687,1691,1692,0,
1685,1689,1693,0,
1693,0,1694,2,
1692,1694,1695,0,
1695,0,1696,2,
1696,1655,1697,0,
1697,0,1698,2,
1679,1698,1699,0,
1676,0,1700,2,
1696,1700,1701,0,
1701,0,1702,2,
1699,1702,1703,0,
1703,0,1704,2,
1649,0,1705,2,
1704,1705,1706,0,
1706,0,1707,2,
1652,1707,1708,0,
1624,1704,1709,0,
1709,0,1710,2,
1708,1710,1711,0,
1711,0,1712,2,
1472,1442,1713,1,
1713,1477,1714,1,
1714,0,1715,2,
1345,1322,1716,1,
1716,0,1717,2,
1717,1290,1718,1,
1718,0,1719,2,
1715,1719,1720,0,
1720,0,1721,2,
1366,1372,1722,1,
1722,1362,1723,1,
1718,0,1724,2,
1723,1724,1725,0,
1725,0,1726,2,
1721,1726,1727,0,
1723,1715,1728,0,
1728,0,1729,2,
1727,1729,1730,0,
1712,1730,1731,1,
1380,1354,1732,1,
1732,1357,1733,1,
1731,1733,1734,1,
1517,1734,1735,0,
1735,0,1736,2,
1723,1718,1737,1,
1737,0,1738,2,
1738,1715,1739,1,
1603,1586,1740,1,
1740,0,1741,2,
1741,1570,1742,1,
171,0,1743,2,
48,1743,1744,0,
183,0,1745,2,
41,1745,1746,0,
1744,1746,1747,0,
1747,0,1748,2,
147,0,1749,2,
8,1749,1750,0,
1746,1750,1751,0,
1751,0,1752,2,
1748,1752,1753,0,
1750,1744,1754,0,
1754,0,1755,2,
1753,1755,1756,0,
1756,0,1757,2,
1529,1523,1758,1,
1758,0,1759,2,
1759,1525,1760,1,
1760,0,1761,2,
1757,1761,1762,0,
1762,0,1763,2,
34,14,1764,0,
15,33,1765,0,
1765,0,1766,2,
1766,0,1767,2,
1764,1767,1768,0,
1760,0,1769,2,
1768,1769,1770,0,
1770,0,1771,2,
1763,1771,1772,0,
1757,1768,1773,0,
1773,0,1774,2,
1772,1774,1775,0,
1775,0,1776,2,
1742,1776,1777,0,
1777,0,1778,2,
1546,1540,1779,1,
1779,0,1780,2,
1780,1542,1781,1,
1781,0,1782,2,
219,0,1783,2,
32,1783,1784,0,
361,0,1785,2,
11,1785,1786,0,
1784,1786,1787,0,
1787,0,1788,2,
200,0,1789,2,
36,1789,1790,0,
1786,1790,1791,0,
1791,0,1792,2,
1788,1792,1793,0,
1790,1784,1794,0,
1794,0,1795,2,
1793,1795,1796,0,
1796,0,1797,2,
1782,1797,1798,0,
1798,0,1799,2,
182,0,1800,2,
42,1800,1801,0,
138,0,1802,2,
9,1802,1803,0,
1801,1803,1804,0,
1804,0,1805,2,
137,0,1806,2,
10,1806,1807,0,
1803,1807,1808,0,
1808,0,1809,2,
1805,1809,1810,0,
1807,1801,1811,0,
1811,0,1812,2,
1810,1812,1813,0,
1813,0,1814,2,
1814,1782,1815,0,
1815,0,1816,2,
1799,1816,1817,0,
1796,0,1818,2,
1814,1818,1819,0,
1819,0,1820,2,
1817,1820,1821,0,
1821,0,1822,2,
1775,0,1823,2,
1822,1823,1824,0,
1824,0,1825,2,
1778,1825,1826,0,
1822,1742,1827,0,
1827,0,1828,2,
1826,1828,1829,0,
1829,0,1830,2,
1552,1535,1831,1,
1831,0,1832,2,
1832,1521,1833,1,
1833,0,1834,2,
173,0,1835,2,
47,1835,1836,0,
171,0,1837,2,
49,1837,1838,0,
1836,1838,1839,0,
1839,0,1840,2,
238,0,1841,2,
1,1841,1842,0,
1838,1842,1843,0,
1843,0,1844,2,
1840,1844,1845,0,
1842,1836,1846,0,
1846,0,1847,2,
1845,1847,1848,0,
1848,0,1849,2,
1834,1849,1850,0,
1850,0,1851,2,
1314,1312,1852,1,
1852,0,1853,2,
1848,0,1854,2,
1853,1854,1855,0,
1855,0,1856,2,
1851,1856,1857,0,
1834,1853,1858,0,
1858,0,1859,2,
1857,1859,1860,0,
1860,0,1861,2,
1830,1861,1862,0,
1862,0,1863,2,
1670,1660,1864,1,
1864,0,1865,2,
1865,1664,1866,1,
1866,0,1867,2,
1596,1590,1868,1,
1868,0,1869,2,
1869,1592,1870,1,
1870,0,1871,2,
129,0,1872,2,
14,1872,1873,0,
1871,1873,1874,0,
1874,0,1875,2,
1842,1836,1876,1,
1876,0,1877,2,
1877,1838,1878,1,
1878,0,1879,2,
1879,1873,1880,0,
1880,0,1881,2,
1875,1881,1882,0,
1871,1879,1883,0,
1883,0,1884,2,
1882,1884,1885,0,
1885,0,1886,2,
1867,1886,1887,0,
1887,0,1888,2,
1681,1689,1889,1,
1889,0,1890,2,
1890,1685,1891,1,
1891,0,1892,2,
1867,1892,1893,0,
1893,0,1894,2,
1888,1894,1895,0,
1885,0,1896,2,
1892,1896,1897,0,
1897,0,1898,2,
1895,1898,1899,0,
1899,1860,1900,1,
1899,1860,1901,0,
1900,1901,1902,1,
1863,1902,1903,0,
1899,0,1904,2,
1830,1904,1905,0,
1905,0,1906,2,
1903,1906,1907,0,
1907,0,1908,2,
1739,1908,1909,0,
1909,0,1910,2,
1695,1676,1911,1,
1911,0,1912,2,
1912,1655,1913,1,
1913,0,1914,2,
1609,1561,1915,1,
1915,1616,1916,1,
1916,0,1917,2,
1914,1917,1918,0,
1918,0,1919,2,
1641,1636,1920,1,
1920,0,1921,2,
1921,1626,1922,1,
1922,0,1923,2,
1923,1914,1924,0,
1924,0,1925,2,
1919,1925,1926,0,
1916,0,1927,2,
1923,1927,1928,0,
1928,0,1929,2,
1926,1929,1930,0,
1930,0,1931,2,
1739,1931,1932,0,
1932,0,1933,2,
1910,1933,1934,0,
1930,0,1935,2,
1908,1935,1936,0,
1936,0,1937,2,
1934,1937,1938,0,
1938,0,1939,2,
1517,1939,1940,0,
1940,0,1941,2,
1736,1941,1942,0,
1938,0,1943,2,
1734,1943,1944,0,
1944,0,1945,2,
1942,1945,1946,0,
1946,0,1947,2,
1733,1730,1948,1,
1733,1730,1949,0,
1948,1949,1950,1,
1730,0,1951,2,
1712,1951,1952,0,
1952,0,1953,2,
1950,1953,1954,0,
1733,0,1955,2,
1712,1955,1956,0,
1956,0,1957,2,
1954,1957,1958,0,
1958,0,1959,2,
1947,1959,1960,0,
1960,0,1961,2,
1005,1135,1962,1,
1962,1142,1963,1,
1963,0,1964,2,
1958,0,1965,2,
1964,1965,1966,0,
1966,0,1967,2,
1961,1967,1968,0,
1947,1964,1969,0,
1969,0,1970,2,
1968,1970,1971,0,
1971,0,1972,2,
1492,1388,1973,1,
1973,0,1974,2,
1974,1498,1975,1,
1975,0,1976,2,
1624,1649,1977,1,
1977,1704,1978,1,
1978,0,1979,2,
1930,1908,1980,1,
1980,1739,1981,1,
1981,0,1982,2,
1979,1982,1983,0,
1983,0,1984,2,
1821,1775,1985,1,
1985,0,1986,2,
1986,1742,1987,1,
1987,0,1988,2,
1658,1656,1989,1,
1989,0,1990,2,
1757,1768,1991,1,
1991,1760,1992,1,
1992,0,1993,2,
1990,1993,1994,0,
1994,0,1995,2,
1813,1796,1996,1,
1996,0,1997,2,
1997,1782,1998,1,
1998,0,1999,2,
1990,1999,2000,0,
2000,0,2001,2,
1995,2001,2002,0,
1998,0,2003,2,
1993,2003,2004,0,
2004,0,2005,2,
2002,2005,2006,0,
2006,0,2007,2,
1988,2007,2008,0,
2008,0,2009,2,
1879,1873,2010,1,
2010,0,2011,2,
2011,1870,2012,1,
34,13,2013,0,
14,33,2014,0,
2014,0,2015,2,
2015,0,2016,2,
2013,2016,2017,0,
361,0,2018,2,
10,2018,2019,0,
137,0,2020,2,
9,2020,2021,0,
2019,2021,2022,0,
2022,0,2023,2,
192,0,2024,2,
39,2024,2025,0,
2021,2025,2026,0,
2026,0,2027,2,
2023,2027,2028,0,
2025,2019,2029,0,
2029,0,2030,2,
2028,2030,2031,0,
2031,0,2032,2,
2017,2032,2033,0,
2033,0,2034,2,
171,0,2035,2,
47,2035,2036,0,
183,0,2037,2,
40,2037,2038,0,
2036,2038,2039,0,
2039,0,2040,2,
146,0,2041,2,
6,2041,2042,0,
2038,2042,2043,0,
2043,0,2044,2,
2040,2044,2045,0,
2042,2036,2046,0,
2046,0,2047,2,
2045,2047,2048,0,
2048,0,2049,2,
2049,2017,2050,0,
2050,0,2051,2,
2034,2051,2052,0,
2031,0,2053,2,
2049,2053,2054,0,
2054,0,2055,2,
2052,2055,2056,0,
2056,0,2057,2,
2012,2057,2058,0,
2058,0,2059,2,
158,0,2060,2,
2,2060,2061,0,
174,0,2062,2,
45,2062,2063,0,
2061,2063,2064,1,
2064,0,2065,2,
170,0,2066,2,
47,2066,2067,0,
2065,2067,2068,1,
2068,0,2069,2,
1807,1801,2070,1,
2070,0,2071,2,
2071,1803,2072,1,
2072,0,2073,2,
2069,2073,2074,0,
2074,0,2075,2,
1790,1784,2076,1,
2076,0,2077,2,
2077,1786,2078,1,
2078,0,2079,2,
2069,2079,2080,0,
2080,0,2081,2,
2075,2081,2082,0,
2073,2079,2083,0,
2083,0,2084,2,
2082,2084,2085,0,
2085,0,2086,2,
2086,2012,2087,0,
2087,0,2088,2,
2059,2088,2089,0,
2056,0,2090,2,
2086,2090,2091,0,
2091,0,2092,2,
2089,2092,2093,0,
2093,0,2094,2,
2006,0,2095,2,
2094,2095,2096,0,
2096,0,2097,2,
2009,2097,2098,0,
2094,1988,2099,0,
2099,0,2100,2,
2098,2100,2101,0,
2101,0,2102,2,
1914,1922,2103,1,
2103,1916,2104,1,
2104,0,2105,2,
2105,0,2106,2,
2102,2106,2107,0,
2107,0,2108,2,
1579,1573,2109,1,
2109,0,2110,2,
2110,1575,2111,1,
2111,0,2112,2,
2063,2067,2113,0,
2113,0,2114,2,
2067,2061,2115,0,
2115,0,2116,2,
2114,2116,2117,0,
2063,2061,2118,0,
2118,0,2119,2,
2117,2119,2120,0,
2120,0,2121,2,
2112,2121,2122,0,
2122,0,2123,2,
129,0,2124,2,
13,2124,2125,0,
179,0,2126,2,
44,2126,2127,0,
2125,2127,2128,0,
2128,0,2129,2,
150,0,2130,2,
5,2130,2131,0,
2127,2131,2132,0,
2132,0,2133,2,
2129,2133,2134,0,
2131,2125,2135,0,
2135,0,2136,2,
2134,2136,2137,0,
2137,0,2138,2,
2120,0,2139,2,
2138,2139,2140,0,
2140,0,2141,2,
2123,2141,2142,0,
2138,2112,2143,0,
2143,0,2144,2,
2142,2144,2145,0,
2145,0,2146,2,
1853,1848,2147,1,
2147,0,2148,2,
2148,1834,2149,1,
2149,0,2150,2,
2150,0,2151,2,
2146,2151,2152,0,
2152,0,2153,2,
1892,1885,2154,1,
2154,0,2155,2,
2155,1867,2156,1,
2156,2146,2157,0,
2157,0,2158,2,
2153,2158,2159,0,
2150,0,2160,2,
2156,2160,2161,0,
2161,0,2162,2,
2159,2162,2163,0,
2163,2105,2164,1,
2163,2105,2165,0,
2164,2165,2166,1,
2108,2166,2167,0,
2163,0,2168,2,
2102,2168,2169,0,
2169,0,2170,2,
2167,2170,2171,0,
2171,0,2172,2,
2172,1979,2173,0,
2173,0,2174,2,
1984,2174,2175,0,
1981,0,2176,2,
2172,2176,2177,0,
2177,0,2178,2,
2175,2178,2179,0,
2179,0,2180,2,
1517,1938,2181,1,
2181,1734,2182,1,
2182,0,2183,2,
2180,2183,2184,0,
2184,0,2185,2,
2163,2102,2186,1,
2186,2105,2187,1,
1829,1860,2188,1,
2188,0,2189,2,
2189,1899,2190,1,
2187,2190,2191,0,
2191,0,2192,2,
2015,2013,2193,1,
2193,0,2194,2,
129,0,2195,2,
11,2195,2196,0,
179,0,2197,2,
42,2197,2198,0,
2196,2198,2199,0,
2199,0,2200,2,
194,0,2201,2,
36,2201,2202,0,
2198,2202,2203,0,
2203,0,2204,2,
2200,2204,2205,0,
2202,2196,2206,0,
2206,0,2207,2,
2205,2207,2208,0,
2208,0,2209,2,
2194,2209,2210,0,
2210,0,2211,2,
150,0,2212,2,
4,2212,2213,0,
315,0,2214,2,
42,2214,2215,0,
2213,2215,2216,1,
2216,0,2217,2,
174,0,2218,2,
44,2218,2219,0,
2217,2219,2220,1,
2220,2208,2221,1,
2220,2208,2222,0,
2221,2222,2223,1,
2211,2223,2224,0,
2220,0,2225,2,
2194,2225,2226,0,
2226,0,2227,2,
2224,2227,2228,0,
2228,0,2229,2,
2042,2036,2230,1,
2230,0,2231,2,
2231,2038,2232,1,
2232,0,2233,2,
174,0,2234,2,
43,2234,2235,0,
170,0,2236,2,
45,2236,2237,0,
2235,2237,2238,0,
2238,0,2239,2,
155,0,2240,2,
2,2240,2241,0,
2237,2241,2242,0,
2242,0,2243,2,
2239,2243,2244,0,
2241,2235,2245,0,
2245,0,2246,2,
2244,2246,2247,0,
2247,0,2248,2,
2233,2248,2249,0,
2249,0,2250,2,
315,0,2251,2,
41,2251,2252,0,
137,0,2253,2,
8,2253,2254,0,
2252,2254,2255,0,
2255,0,2256,2,
191,0,2257,2,
37,2257,2258,0,
2254,2258,2259,0,
2259,0,2260,2,
2256,2260,2261,0,
2258,2252,2262,0,
2262,0,2263,2,
2261,2263,2264,0,
2264,0,2265,2,
2265,2233,2266,0,
2266,0,2267,2,
2250,2267,2268,0,
2247,0,2269,2,
2265,2269,2270,0,
2270,0,2271,2,
2268,2271,2272,0,
2272,0,2273,2,
2229,2273,2274,0,
2274,0,2275,2,
2131,2125,2276,1,
2276,0,2277,2,
2277,2127,2278,1,
2278,0,2279,2,
173,0,2280,2,
45,2280,2281,0,
134,0,2282,2,
11,2282,2283,0,
2281,2283,2284,0,
2284,0,2285,2,
158,0,2286,2,
1,2286,2287,0,
2283,2287,2288,0,
2288,0,2289,2,
2285,2289,2290,0,
2287,2281,2291,0,
2291,0,2292,2,
2290,2292,2293,0,
2293,0,2294,2,
2279,2294,2295,1,
1750,1744,2296,1,
2296,0,2297,2,
2297,1746,2298,1,
2295,2298,2299,1,
2299,2272,2300,1,
2299,2272,2301,0,
2300,2301,2302,1,
2275,2302,2303,0,
2299,0,2304,2,
2229,2304,2305,0,
2305,0,2306,2,
2303,2306,2307,0,
2307,0,2308,2,
2215,2219,2309,0,
2309,0,2310,2,
2219,2213,2311,0,
2311,0,2312,2,
2310,2312,2313,0,
2215,2213,2314,0,
2314,0,2315,2,
2313,2315,2316,0,
2316,0,2317,2,
2031,2017,2318,1,
2318,0,2319,2,
2319,2049,2320,1,
2320,0,2321,2,
2321,0,2322,2,
2317,2322,2323,0,
2323,0,2324,2,
1766,1764,2325,1,
2325,0,2326,2,
2317,2326,2327,0,
2327,0,2328,2,
2324,2328,2329,0,
2321,0,2330,2,
2326,2330,2331,0,
2331,0,2332,2,
2329,2332,2333,0,
2333,0,2334,2,
2308,2334,2335,0,
2335,0,2336,2,
2068,2079,2337,1,
2337,2072,2338,1,
171,0,2339,2,
46,2339,2340,0,
182,0,2341,2,
40,2341,2342,0,
2340,2342,2343,0,
2343,0,2344,2,
138,0,2345,2,
7,2345,2346,0,
2342,2346,2347,0,
2347,0,2348,2,
2344,2348,2349,0,
2346,2340,2350,0,
2350,0,2351,2,
2349,2351,2352,0,
2352,0,2353,2,
2025,2019,2354,1,
2354,0,2355,2,
2355,2021,2356,1,
2356,0,2357,2,
2353,2357,2358,0,
2358,0,2359,2,
200,0,2360,2,
34,2360,2361,0,
2361,0,2362,2,
13,33,2363,0,
2363,0,2364,2,
2362,2364,2365,1,
2362,2364,2366,0,
2365,2366,2367,1,
2367,0,2368,2,
2356,0,2369,2,
2368,2369,2370,0,
2370,0,2371,2,
2359,2371,2372,0,
2353,2368,2373,0,
2373,0,2374,2,
2372,2374,2375,0,
2375,0,2376,2,
2338,2376,2377,0,
2377,0,2378,2,
200,0,2379,2,
35,2379,2380,0,
2287,2281,2381,1,
2381,0,2382,2,
2382,2283,2383,1,
2383,0,2384,2,
2380,2384,2385,0,
2385,0,2386,2,
204,0,2387,2,
32,2387,2388,0,
2388,2380,2389,0,
2389,0,2390,2,
2386,2390,2391,0,
2384,2388,2392,0,
2392,0,2393,2,
2391,2393,2394,0,
2394,0,2395,2,
2395,2338,2396,0,
2396,0,2397,2,
2378,2397,2398,0,
2375,0,2399,2,
2395,2399,2400,0,
2400,0,2401,2,
2398,2401,2402,0,
2402,2333,2403,1,
2402,2333,2404,0,
2403,2404,2405,1,
2336,2405,2406,0,
2402,0,2407,2,
2308,2407,2408,0,
2408,0,2409,2,
2406,2409,2410,0,
2410,0,2411,2,
2156,2146,2412,1,
2412,0,2413,2,
2413,2150,2414,1,
2414,0,2415,2,
2415,0,2416,2,
2411,2416,2417,0,
2417,0,2418,2,
1989,1998,2419,1,
2419,0,2420,2,
2420,1993,2421,1,
2421,0,2422,2,
2137,2120,2423,1,
2423,0,2424,2,
2424,2112,2425,1,
2425,0,2426,2,
2422,2426,2427,0,
2427,0,2428,2,
2298,0,2429,2,
2279,2429,2430,0,
2430,0,2431,2,
2279,2294,2432,0,
2432,0,2433,2,
2431,2433,2434,0,
2298,0,2435,2,
2294,2435,2436,0,
2436,0,2437,2,
2434,2437,2438,0,
2438,0,2439,2,
2426,2439,2440,0,
2440,0,2441,2,
2428,2441,2442,0,
2438,0,2443,2,
2422,2443,2444,0,
2444,0,2445,2,
2442,2445,2446,0,
2446,2415,2447,1,
2446,2415,2448,0,
2447,2448,2449,1,
2418,2449,2450,0,
2446,0,2451,2,
2411,2451,2452,0,
2452,0,2453,2,
2450,2453,2454,0,
2454,0,2455,2,
2190,2455,2456,0,
2456,0,2457,2,
2192,2457,2458,0,
2454,0,2459,2,
2187,2459,2460,0,
2460,0,2461,2,
2458,2461,2462,0,
2462,0,2463,2,
1979,2172,2464,1,
2464,0,2465,2,
2465,1981,2466,1,
2466,0,2467,2,
2467,0,2468,2,
2463,2468,2469,0,
2469,0,2470,2,
2446,2411,2471,1,
2471,2415,2472,1,
2093,2006,2473,1,
2473,0,2474,2,
2474,1988,2475,1,
2475,0,2476,2,
2472,2476,2477,0,
2477,0,2478,2,
2394,2375,2479,1,
2479,0,2480,2,
2480,2338,2481,1,
2481,0,2482,2,
2264,2247,2483,1,
2483,0,2484,2,
2484,2233,2485,1,
2485,0,2486,2,
2380,2388,2487,1,
2487,0,2488,2,
2488,2384,2489,1,
2489,0,2490,2,
2486,2490,2491,0,
2491,0,2492,2,
2353,2368,2493,1,
2493,2356,2494,1,
2494,0,2495,2,
2495,2486,2496,0,
2496,0,2497,2,
2492,2497,2498,0,
2490,2495,2499,0,
2499,0,2500,2,
2498,2500,2501,0,
2501,0,2502,2,
2482,2502,2503,0,
2503,0,2504,2,
2326,2317,2505,1,
2505,2321,2506,1,
2506,0,2507,2,
2482,2507,2508,0,
2508,0,2509,2,
2504,2509,2510,0,
2501,0,2511,2,
2507,2511,2512,0,
2512,0,2513,2,
2510,2513,2514,0,
2085,2056,2515,1,
2515,0,2516,2,
2516,2012,2517,1,
2514,2517,2518,1,
2514,2517,2519,0,
2518,2519,2520,1,
2426,2438,2521,1,
2521,0,2522,2,
2522,2421,2523,1,
2517,2523,2524,1,
2517,2523,2525,0,
2524,2525,2526,1,
2520,2526,2527,0,
2514,2523,2528,1,
2514,2523,2529,0,
2528,2529,2530,1,
2527,2530,2531,0,
2531,0,2532,2,
2476,2532,2533,0,
2533,0,2534,2,
2478,2534,2535,0,
2531,0,2536,2,
2472,2536,2537,0,
2537,0,2538,2,
2535,2538,2539,0,
2539,0,2540,2,
2190,2454,2541,1,
2541,2187,2542,1,
2542,0,2543,2,
2540,2543,2544,0,
2544,0,2545,2,
2523,2514,2546,1,
2546,2517,2547,1,
2547,0,2548,2,
2307,2333,2549,1,
2549,0,2550,2,
2550,2402,2551,1,
2548,2551,2552,0,
2552,0,2553,2,
179,0,2554,2,
41,2554,2555,0,
173,0,2556,2,
43,2556,2557,0,
2555,2557,2558,0,
2558,0,2559,2,
149,0,2560,2,
3,2560,2561,0,
2557,2561,2562,0,
2562,0,2563,2,
2559,2563,2564,0,
2561,2555,2565,0,
2565,0,2566,2,
2564,2566,2567,0,
2567,0,2568,2,
170,0,2569,2,
44,2569,2570,0,
171,0,2571,2,
45,2571,2572,0,
2570,2572,2573,0,
2573,0,2574,2,
138,0,2575,2,
6,2575,2576,0,
2572,2576,2577,0,
2577,0,2578,2,
2574,2578,2579,0,
2576,2570,2580,0,
2580,0,2581,2,
2579,2581,2582,0,
2582,0,2583,2,
2568,2583,2584,0,
2584,0,2585,2,
134,0,2586,2,
9,2586,2587,0,
361,0,2588,2,
8,2588,2589,0,
2587,2589,2590,0,
2590,0,2591,2,
137,0,2592,2,
7,2592,2593,0,
2589,2593,2594,0,
2594,0,2595,2,
2591,2595,2596,0,
2593,2587,2597,0,
2597,0,2598,2,
2596,2598,2599,0,
2599,2582,2600,1,
2599,2582,2601,0,
2600,2601,2602,1,
2585,2602,2603,0,
2599,0,2604,2,
2568,2604,2605,0,
2605,0,2606,2,
2603,2606,2607,0,
2607,0,2608,2,
2346,2340,2609,1,
2609,0,2610,2,
2610,2342,2611,1,
2611,0,2612,2,
34,11,2613,0,
12,33,2614,0,
2614,0,2615,2,
2615,0,2616,2,
2613,2616,2617,0,
2612,2617,2618,1,
2618,0,2619,2,
2364,2362,2620,1,
2620,0,2621,2,
2619,2621,2622,1,
2622,0,2623,2,
2623,0,2624,2,
316,0,2625,2,
32,2625,2626,0,
315,0,2627,2,
40,2627,2628,0,
2626,2628,2629,0,
2629,0,2630,2,
194,0,2631,2,
35,2631,2632,0,
2628,2632,2633,0,
2633,0,2634,2,
2630,2634,2635,0,
2632,2626,2636,0,
2636,0,2637,2,
2635,2637,2638,0,
2638,0,2639,2,
2624,2639,2640,0,
2640,0,2641,2,
2202,2196,2642,1,
2642,0,2643,2,
2643,2198,2644,1,
2644,0,2645,2,
2639,2645,2646,0,
2646,0,2647,2,
2641,2647,2648,0,
2624,2645,2649,0,
2649,0,2650,2,
2648,2650,2651,0,
2651,0,2652,2,
2608,2652,2653,0,
2653,0,2654,2,
2495,2486,2655,1,
2655,2490,2656,1,
2656,2608,2657,0,
2657,0,2658,2,
2654,2658,2659,0,
2651,0,2660,2,
2656,2660,2661,0,
2661,0,2662,2,
2659,2662,2663,0,
2663,0,2664,2,
2220,2208,2665,1,
2665,2193,2666,1,
2666,0,2667,2,
2258,2252,2668,1,
2668,0,2669,2,
2669,2254,2670,1,
2670,0,2671,2,
203,0,2672,2,
32,2672,2673,0,
2671,2673,2674,0,
2674,0,2675,2,
2241,2235,2676,1,
2676,0,2677,2,
2677,2237,2678,1,
2678,0,2679,2,
2679,2673,2680,0,
2680,0,2681,2,
2675,2681,2682,0,
2671,2679,2683,0,
2683,0,2684,2,
2682,2684,2685,0,
2685,0,2686,2,
2667,2686,2687,0,
2687,0,2688,2,
2621,0,2689,2,
2617,2689,2690,0,
2690,0,2691,2,
2617,2612,2692,0,
2692,0,2693,2,
2691,2693,2694,0,
2621,0,2695,2,
2612,2695,2696,0,
2696,0,2697,2,
2694,2697,2698,0,
2698,0,2699,2,
2686,2699,2700,0,
2700,0,2701,2,
2688,2701,2702,0,
2698,0,2703,2,
2667,2703,2704,0,
2704,0,2705,2,
2702,2705,2706,0,
2706,0,2707,2,
2664,2707,2708,0,
2708,0,2709,2,
2228,2272,2710,1,
2710,0,2711,2,
2711,2299,2712,1,
2712,0,2713,2,
2713,2706,2714,1,
2713,2706,2715,0,
2714,2715,2716,1,
2709,2716,2717,0,
2713,0,2718,2,
2664,2718,2719,0,
2719,0,2720,2,
2717,2720,2721,0,
2721,0,2722,2,
2551,2722,2723,0,
2723,0,2724,2,
2553,2724,2725,0,
2721,0,2726,2,
2548,2726,2727,0,
2727,0,2728,2,
2725,2728,2729,0,
2729,0,2730,2,
2476,2531,2731,1,
2731,0,2732,2,
2732,2472,2733,1,
2733,0,2734,2,
2734,0,2735,2,
2730,2735,2736,0,
2736,0,2737,2,
2663,2706,2738,1,
2738,0,2739,2,
2739,2713,2740,1,
2482,2501,2741,1,
2741,0,2742,2,
2742,2507,2743,1,
2743,0,2744,2,
2744,0,2745,2,
2740,2745,2746,0,
2746,0,2747,2,
2679,2673,2748,1,
2748,0,2749,2,
2749,2670,2750,1,
2615,2613,2751,1,
2751,0,2752,2,
171,0,2753,2,
44,2753,2754,0,
315,0,2755,2,
39,2755,2756,0,
2754,2756,2757,0,
2757,0,2758,2,
137,0,2759,2,
6,2759,2760,0,
2756,2760,2761,0,
2761,0,2762,2,
2758,2762,2763,0,
2760,2754,2764,0,
2764,0,2765,2,
2763,2765,2766,0,
2766,0,2767,2,
2752,2767,2768,0,
2768,0,2769,2,
34,10,2770,0,
11,33,2771,0,
2771,0,2772,2,
2772,0,2773,2,
2770,2773,2774,0,
2752,2774,2775,0,
2775,0,2776,2,
2769,2776,2777,0,
2767,2774,2778,0,
2778,0,2779,2,
2777,2779,2780,0,
2780,0,2781,2,
2750,2781,2782,0,
2782,0,2783,2,
2576,2570,2784,1,
2784,0,2785,2,
2785,2572,2786,1,
2786,0,2787,2,
2561,2555,2788,1,
2788,0,2789,2,
2789,2557,2790,1,
2790,0,2791,2,
2787,2791,2792,0,
2792,0,2793,2,
2593,2587,2794,1,
2794,0,2795,2,
2795,2589,2796,1,
2796,0,2797,2,
2791,2797,2798,0,
2798,0,2799,2,
2793,2799,2800,0,
2787,2797,2801,0,
2801,0,2802,2,
2800,2802,2803,0,
2803,0,2804,2,
2804,2750,2805,0,
2805,0,2806,2,
2783,2806,2807,0,
2780,0,2808,2,
2804,2808,2809,0,
2809,0,2810,2,
2807,2810,2811,0,
2645,2639,2812,1,
2812,2623,2813,1,
2813,0,2814,2,
2567,2582,2815,1,
2815,0,2816,2,
2816,2599,2817,1,
2814,2817,2818,0,
2818,0,2819,2,
174,0,2820,2,
41,2820,2821,0,
170,0,2822,2,
43,2822,2823,0,
2821,2823,2824,0,
2824,0,2825,2,
149,0,2826,2,
2,2826,2827,0,
2823,2827,2828,0,
2828,0,2829,2,
2825,2829,2830,0,
2827,2821,2831,0,
2831,0,2832,2,
2830,2832,2833,0,
2833,0,2834,2,
179,0,2835,2,
40,2835,2836,0,
361,0,2837,2,
7,2837,2838,0,
2836,2838,2839,0,
2839,0,2840,2,
192,0,2841,2,
36,2841,2842,0,
2838,2842,2843,0,
2843,0,2844,2,
2840,2844,2845,0,
2842,2836,2846,0,
2846,0,2847,2,
2845,2847,2848,0,
2848,0,2849,2,
2834,2849,2850,0,
2850,0,2851,2,
2632,2626,2852,1,
2852,0,2853,2,
2853,2628,2854,1,
2854,0,2855,2,
2848,0,2856,2,
2855,2856,2857,0,
2857,0,2858,2,
2851,2858,2859,0,
2834,2855,2860,0,
2860,0,2861,2,
2859,2861,2862,0,
2862,0,2863,2,
2817,2863,2864,0,
2864,0,2865,2,
2819,2865,2866,0,
2862,0,2867,2,
2814,2867,2868,0,
2868,0,2869,2,
2866,2869,2870,0,
2811,2870,2871,1,
2811,2870,2872,0,
2871,2872,2873,1,
2698,2686,2874,1,
2874,2666,2875,1,
2811,0,2876,2,
2875,2876,2877,0,
2877,0,2878,2,
2873,2878,2879,0,
2870,0,2880,2,
2875,2880,2881,0,
2881,0,2882,2,
2879,2882,2883,0,
2883,0,2884,2,
2744,0,2885,2,
2884,2885,2886,0,
2886,0,2887,2,
2747,2887,2888,0,
2740,2884,2889,0,
2889,0,2890,2,
2888,2890,2891,0,
2891,0,2892,2,
2551,2721,2893,1,
2893,2548,2894,1,
2894,0,2895,2,
2892,2895,2896,0,
2896,0,2897,2,
2817,2862,2898,1,
2898,2813,2899,1,
2827,2821,2900,1,
2900,0,2901,2,
2901,2823,2902,1,
2902,0,2903,2,
171,0,2904,2,
43,2904,2905,0,
315,0,2906,2,
38,2906,2907,0,
2905,2907,2908,0,
2908,0,2909,2,
138,0,2910,2,
4,2910,2911,0,
2907,2911,2912,0,
2912,0,2913,2,
2909,2913,2914,0,
2911,2905,2915,0,
2915,0,2916,2,
2914,2916,2917,0,
2917,0,2918,2,
2903,2918,2919,0,
2919,0,2920,2,
129,0,2921,2,
8,2921,2922,0,
134,0,2923,2,
7,2923,2924,0,
2922,2924,2925,0,
2925,0,2926,2,
361,0,2927,2,
6,2927,2928,0,
2924,2928,2929,0,
2929,0,2930,2,
2926,2930,2931,0,
2928,2922,2932,0,
2932,0,2933,2,
2931,2933,2934,0,
2934,0,2935,2,
2917,0,2936,2,
2935,2936,2937,0,
2937,0,2938,2,
2920,2938,2939,0,
2935,2903,2940,0,
2940,0,2941,2,
2939,2941,2942,0,
2942,0,2943,2,
191,0,2944,2,
35,2944,2945,0,
2842,2836,2946,1,
2946,0,2947,2,
2947,2838,2948,1,
2948,0,2949,2,
2945,2949,2950,0,
2950,0,2951,2,
200,0,2952,2,
32,2952,2953,0,
2953,2945,2954,0,
2954,0,2955,2,
2951,2955,2956,0,
2949,2953,2957,0,
2957,0,2958,2,
2956,2958,2959,0,
2959,0,2960,2,
2943,2960,2961,0,
2961,0,2962,2,
34,9,2963,0,
10,33,2964,0,
2964,0,2965,2,
2965,0,2966,2,
2963,2966,2967,0,
2760,2754,2968,1,
2968,0,2969,2,
2969,2756,2970,1,
2970,0,2971,2,
2967,2971,2972,0,
2972,0,2973,2,
2772,2770,2974,1,
2974,0,2975,2,
2975,2971,2976,0,
2976,0,2977,2,
2973,2977,2978,0,
2975,2967,2979,0,
2979,0,2980,2,
2978,2980,2981,0,
2981,2959,2982,1,
2981,2959,2983,0,
2982,2983,2984,1,
2962,2984,2985,0,
2981,0,2986,2,
2943,2986,2987,0,
2987,0,2988,2,
2985,2988,2989,0,
2989,0,2990,2,
2767,2774,2991,1,
2991,2751,2992,1,
2992,0,2993,2,
2834,2848,2994,1,
2994,2855,2995,1,
2995,0,2996,2,
2993,2996,2997,0,
2997,0,2998,2,
2791,2797,2999,1,
2999,0,3000,2,
3000,2786,3001,1,
2993,3001,3002,0,
3002,0,3003,2,
2998,3003,3004,0,
2995,0,3005,2,
3001,3005,3006,0,
3006,0,3007,2,
3004,3007,3008,0,
3008,0,3009,2,
2990,3009,3010,1,
3010,0,3011,2,
2803,2780,3012,1,
3012,0,3013,2,
3013,2750,3014,1,
3011,3014,3015,1,
2899,3015,3016,0,
3016,0,3017,2,
194,0,3018,2,
32,3018,3019,0,
179,0,3020,2,
38,3020,3021,0,
3019,3021,3022,0,
3022,0,3023,2,
183,0,3024,2,
35,3024,3025,0,
3021,3025,3026,0,
3026,0,3027,2,
3023,3027,3028,0,
3025,3019,3029,0,
3029,0,3030,2,
3028,3030,3031,0,
3031,0,3032,2,
174,0,3033,2,
39,3033,3034,0,
182,0,3035,2,
36,3035,3036,0,
3034,3036,3037,0,
3037,0,3038,2,
147,0,3039,2,
2,3039,3040,0,
3036,3040,3041,0,
3041,0,3042,2,
3038,3042,3043,0,
3040,3034,3044,0,
3044,0,3045,2,
3043,3045,3046,0,
3046,0,3047,2,
3032,3047,3048,0,
3048,0,3049,2,
146,0,3050,2,
2,3050,3051,0,
174,0,3052,2,
40,3052,3053,0,
3051,3053,3054,1,
3054,0,3055,2,
170,0,3056,2,
42,3056,3057,0,
3055,3057,3058,1,
3058,3046,3059,1,
3058,3046,3060,0,
3059,3060,3061,1,
3049,3061,3062,0,
3058,0,3063,2,
3032,3063,3064,0,
3064,0,3065,2,
3062,3065,3066,0,
3066,0,3067,2,
2911,2905,3068,1,
3068,0,3069,2,
3069,2907,3070,1,
3070,0,3071,2,
195,0,3072,2,
32,3072,3073,0,
3071,3073,3074,0,
3074,0,3075,2,
2928,2922,3076,1,
3076,0,3077,2,
3077,2924,3078,1,
3078,0,3079,2,
3079,3073,3080,0,
3080,0,3081,2,
3075,3081,3082,0,
3071,3079,3083,0,
3083,0,3084,2,
3082,3084,3085,0,
3085,0,3086,2,
3067,3086,3087,0,
3087,0,3088,2,
315,0,3089,2,
37,3089,3090,0,
171,0,3091,2,
42,3091,3092,0,
3090,3092,3093,0,
3093,0,3094,2,
146,0,3095,2,
1,3095,3096,0,
3092,3096,3097,0,
3097,0,3098,2,
3094,3098,3099,0,
3096,3090,3100,0,
3100,0,3101,2,
3099,3101,3102,0,
3102,0,3103,2,
2965,2963,3104,1,
3104,0,3105,2,
3103,3105,3106,0,
3106,0,3107,2,
34,8,3108,0,
9,33,3109,0,
3109,0,3110,2,
3110,0,3111,2,
3108,3111,3112,0,
3104,0,3113,2,
3112,3113,3114,0,
3114,0,3115,2,
3107,3115,3116,0,
3103,3112,3117,0,
3117,0,3118,2,
3116,3118,3119,0,
3119,3085,3120,1,
3119,3085,3121,0,
3120,3121,3122,1,
3088,3122,3123,0,
3119,0,3124,2,
3067,3124,3125,0,
3125,0,3126,2,
3123,3126,3127,0,
3127,0,3128,2,
2992,3001,3129,1,
3129,0,3130,2,
3130,2995,3131,1,
3131,0,3132,2,
3128,3132,3133,0,
3133,0,3134,2,
2945,2953,3135,1,
3135,0,3136,2,
3136,2949,3137,1,
3137,0,3138,2,
3053,3057,3139,0,
3139,0,3140,2,
3057,3051,3141,0,
3141,0,3142,2,
3140,3142,3143,0,
3053,3051,3144,0,
3144,0,3145,2,
3143,3145,3146,0,
3146,0,3147,2,
3138,3147,3148,0,
3148,0,3149,2,
2974,2967,3150,1,
3150,2971,3151,1,
3151,0,3152,2,
3146,0,3153,2,
3152,3153,3154,0,
3154,0,3155,2,
3149,3155,3156,0,
3152,3138,3157,0,
3157,0,3158,2,
3156,3158,3159,0,
3159,0,3160,2,
3132,3160,3161,0,
3161,0,3162,2,
3134,3162,3163,0,
3159,0,3164,2,
3128,3164,3165,0,
3165,0,3166,2,
3163,3166,3167,0,
3167,0,3168,2,
3168,2899,3169,0,
3169,0,3170,2,
3017,3170,3171,0,
3168,3015,3172,0,
3172,0,3173,2,
3171,3173,3174,0,
3174,0,3175,2,
3014,0,3176,2,
3176,3009,3177,0,
3177,0,3178,2,
2990,3009,3179,0,
3179,0,3180,2,
3178,3180,3181,0,
3176,2990,3182,0,
3182,0,3183,2,
3181,3183,3184,0,
3184,0,3185,2,
3175,3185,3186,0,
3186,0,3187,2,
2651,2608,3188,1,
3188,2656,3189,1,
3189,3184,3190,1,
3189,3184,3191,0,
3190,3191,3192,1,
3187,3192,3193,0,
3189,0,3194,2,
3175,3194,3195,0,
3195,0,3196,2,
3193,3196,3197,0,
3197,0,3198,2,
2744,2884,3199,1,
3199,0,3200,2,
3200,2740,3201,1,
3201,0,3202,2,
3202,0,3203,2,
3198,3203,3204,0,
3204,0,3205,2,
2870,2811,3206,1,
3206,0,3207,2,
3207,2875,3208,1,
3174,3184,3209,1,
3209,0,3210,2,
3210,3189,3211,1,
3211,0,3212,2,
3208,3212,3213,1,
3208,3212,3214,0,
3213,3214,3215,1,
3159,3128,3216,1,
3216,3132,3217,1,
3217,0,3218,2,
2942,2959,3219,1,
3219,0,3220,2,
3220,2981,3221,1,
3218,3221,3222,0,
3222,0,3223,2,
2934,2917,3224,1,
3224,0,3225,2,
3225,2903,3226,1,
3226,0,3227,2,
3040,3034,3228,1,
3228,0,3229,2,
3229,3036,3230,1,
3230,0,3231,2,
3110,3108,3232,1,
3232,0,3233,2,
3231,3233,3234,0,
3234,0,3235,2,
3096,3090,3236,1,
3236,0,3237,2,
3237,3092,3238,1,
3238,0,3239,2,
3231,3239,3240,0,
3240,0,3241,2,
3235,3241,3242,0,
3233,3239,3243,0,
3243,0,3244,2,
3242,3244,3245,0,
3245,0,3246,2,
3103,3112,3247,1,
3247,3104,3248,1,
3248,0,3249,2,
3246,3249,3250,0,
3250,0,3251,2,
3079,3073,3252,1,
3252,0,3253,2,
3253,3070,3254,1,
3249,3254,3255,0,
3255,0,3256,2,
3251,3256,3257,0,
3246,3254,3258,0,
3258,0,3259,2,
3257,3259,3260,0,
3260,0,3261,2,
3227,3261,3262,0,
3262,0,3263,2,
3151,3146,3264,1,
3264,3138,3265,1,
3265,0,3266,2,
3266,0,3267,2,
3227,3267,3268,0,
3268,0,3269,2,
3263,3269,3270,0,
3260,3266,3271,1,
3260,3266,3272,0,
3271,3272,3273,1,
3270,3273,3274,0,
3274,0,3275,2,
3221,3275,3276,0,
3276,0,3277,2,
3223,3277,3278,0,
3274,0,3279,2,
3218,3279,3280,0,
3280,0,3281,2,
3278,3281,3282,0,
3282,0,3283,2,
2899,3168,3284,1,
3284,0,3285,2,
3285,3015,3286,1,
3286,0,3287,2,
3283,3287,3288,0,
3288,0,3289,2,
3227,3260,3290,1,
3290,0,3291,2,
3291,3266,3292,1,
3292,0,3293,2,
3066,3085,3294,1,
3294,0,3295,2,
3295,3119,3296,1,
3293,3296,3297,0,
3297,0,3298,2,
361,0,3299,2,
4,3299,3300,0,
315,0,3301,2,
36,3301,3302,0,
3300,3302,3303,1,
3303,0,3304,2,
171,0,3305,2,
41,3305,3306,0,
3304,3306,3307,1,
3307,0,3308,2,
129,0,3309,2,
6,3309,3310,0,
3308,3310,3311,0,
3311,0,3312,2,
191,0,3313,2,
32,3313,3314,0,
3314,3310,3315,0,
3315,0,3316,2,
3312,3316,3317,0,
3308,3314,3318,0,
3318,0,3319,2,
3317,3319,3320,0,
3320,0,3321,2,
174,0,3322,2,
38,3322,3323,0,
170,0,3324,2,
40,3324,3325,0,
3323,3325,3326,0,
3326,0,3327,2,
138,0,3328,2,
2,3328,3329,0,
3325,3329,3330,0,
3330,0,3331,2,
3327,3331,3332,0,
3329,3323,3333,0,
3333,0,3334,2,
3332,3334,3335,0,
3335,0,3336,2,
3321,3336,3337,0,
3337,0,3338,2,
3230,3239,3339,1,
3339,3232,3340,1,
3335,0,3341,2,
3340,3341,3342,0,
3342,0,3343,2,
3338,3343,3344,0,
3321,3340,3345,0,
3345,0,3346,2,
3344,3346,3347,0,
3347,0,3348,2,
3025,3019,3349,1,
3349,0,3350,2,
3350,3021,3351,1,
3351,0,3352,2,
34,7,3353,0,
8,33,3354,0,
3354,0,3355,2,
3355,0,3356,2,
3353,3356,3357,0,
3352,3357,3358,0,
3358,0,3359,2,
3302,3306,3360,0,
3360,0,3361,2,
3306,3300,3362,0,
3362,0,3363,2,
3361,3363,3364,0,
3302,3300,3365,0,
3365,0,3366,2,
3364,3366,3367,0,
3367,0,3368,2,
3357,3368,3369,0,
3369,0,3370,2,
3359,3370,3371,0,
3367,0,3372,2,
3352,3372,3373,0,
3373,0,3374,2,
3371,3374,3375,0,
3375,0,3376,2,
3348,3376,3377,0,
3377,0,3378,2,
3032,3046,3379,1,
3379,3058,3380,1,
3380,0,3381,2,
3381,0,3382,2,
3375,0,3383,2,
3382,3383,3384,0,
3384,0,3385,2,
3378,3385,3386,0,
3382,3348,3387,0,
3387,0,3388,2,
3386,3388,3389,0,
3389,0,3390,2,
3296,3390,3391,0,
3391,0,3392,2,
3298,3392,3393,0,
3389,0,3394,2,
3293,3394,3395,0,
3395,0,3396,2,
3393,3396,3397,0,
3397,0,3398,2,
3221,3274,3399,1,
3399,3218,3400,1,
3400,0,3401,2,
3398,3401,3402,0,
3402,0,3403,2,
3254,3246,3404,1,
3404,3249,3405,1,
3348,3375,3406,1,
3406,3381,3407,1,
3407,0,3408,2,
3408,0,3409,2,
3405,3409,3410,0,
3410,0,3411,2,
3355,3353,3412,1,
3412,0,3413,2,
173,0,3414,2,
38,3414,3415,0,
174,0,3416,2,
37,3416,3417,0,
3415,3417,3418,0,
3418,0,3419,2,
134,0,3420,2,
4,3420,3421,0,
3417,3421,3422,0,
3422,0,3423,2,
3419,3423,3424,0,
3421,3415,3425,0,
3425,0,3426,2,
3424,3426,3427,0,
3427,0,3428,2,
3413,3428,3429,0,
3429,0,3430,2,
6,34,3431,0,
7,33,3432,0,
3432,0,3433,2,
3433,0,3434,2,
3431,3434,3435,0,
3435,3413,3436,0,
3436,0,3437,2,
3430,3437,3438,0,
3428,3435,3439,0,
3439,0,3440,2,
3438,3440,3441,0,
3441,0,3442,2,
3329,3323,3443,1,
3443,0,3444,2,
3444,3325,3445,1,
3445,0,3446,2,
3310,3314,3447,1,
3447,0,3448,2,
3448,3307,3449,1,
3446,3449,3450,0,
3450,0,3451,2,
315,0,3452,2,
35,3452,3453,0,
171,0,3454,2,
40,3454,3455,0,
3453,3455,3456,0,
3456,0,3457,2,
138,0,3458,2,
1,3458,3459,0,
3455,3459,3460,0,
3460,0,3461,2,
3457,3461,3462,0,
3459,3453,3463,0,
3463,0,3464,2,
3462,3464,3465,0,
3465,0,3466,2,
3466,3446,3467,0,
3467,0,3468,2,
3451,3468,3469,0,
3466,3449,3470,0,
3470,0,3471,2,
3469,3471,3472,0,
3472,0,3473,2,
3442,3473,3474,0,
3474,0,3475,2,
3367,3357,3476,1,
3476,0,3477,2,
3477,3351,3478,1,
3478,0,3479,2,
3479,3442,3480,0,
3480,0,3481,2,
3475,3481,3482,0,
3472,0,3483,2,
3479,3483,3484,0,
3484,0,3485,2,
3482,3485,3486,0,
3486,0,3487,2,
3487,3405,3488,0,
3488,0,3489,2,
3411,3489,3490,0,
3408,0,3491,2,
3487,3491,3492,0,
3492,0,3493,2,
3490,3493,3494,0,
3494,0,3495,2,
3296,3389,3496,1,
3496,3293,3497,1,
3497,0,3498,2,
3495,3498,3499,0,
3499,0,3500,2,
5,34,3501,0,
33,6,3502,0,
3502,0,3503,2,
3503,0,3504,2,
3501,3504,3505,0,
183,0,3506,2,
32,3506,3507,0,
174,0,3508,2,
36,3508,3509,0,
3507,3509,3510,0,
3510,0,3511,2,
129,0,3512,2,
4,3512,3513,0,
3509,3513,3514,0,
3514,0,3515,2,
3511,3515,3516,0,
3513,3507,3517,0,
3517,0,3518,2,
3516,3518,3519,0,
3519,0,3520,2,
3505,3520,3521,0,
3521,0,3522,2,
173,0,3523,2,
37,3523,3524,0,
171,0,3525,2,
39,3525,3526,0,
3524,3526,3527,0,
3527,0,3528,2,
137,0,3529,2,
1,3529,3530,0,
3526,3530,3531,0,
3531,0,3532,2,
3528,3532,3533,0,
3530,3524,3534,0,
3534,0,3535,2,
3533,3535,3536,0,
3536,0,3537,2,
3537,3505,3538,0,
3538,0,3539,2,
3522,3539,3540,0,
3519,0,3541,2,
3537,3541,3542,0,
3542,0,3543,2,
3540,3543,3544,0,
3544,0,3545,2,
3433,3431,3546,1,
3546,0,3547,2,
192,0,3548,2,
32,3548,3549,0,
3547,3549,3550,0,
3550,0,3551,2,
3421,3415,3552,1,
3552,0,3553,2,
3553,3417,3554,1,
3554,0,3555,2,
3549,3555,3556,0,
3556,0,3557,2,
3551,3557,3558,0,
3547,3555,3559,0,
3559,0,3560,2,
3558,3560,3561,0,
3561,0,3562,2,
3545,3562,3563,1,
3563,0,3564,2,
3428,3435,3565,1,
3565,3413,3566,1,
3566,0,3567,2,
3564,3567,3568,1,
3446,3466,3569,1,
3569,3449,3570,1,
3570,0,3571,2,
3571,0,3572,2,
3568,3572,3573,0,
3573,0,3574,2,
3459,3453,3575,1,
3575,0,3576,2,
3576,3455,3577,1,
3577,0,3578,2,
4,34,3579,0,
33,5,3580,0,
3580,0,3581,2,
3581,0,3582,2,
3579,3582,3583,0,
3530,3524,3584,1,
3584,0,3585,2,
3585,3526,3586,1,
3586,0,3587,2,
3583,3587,3588,0,
3588,0,3589,2,
3503,3501,3590,1,
3590,0,3591,2,
3591,3587,3592,0,
3592,0,3593,2,
3589,3593,3594,0,
3591,3583,3595,0,
3595,0,3596,2,
3594,3596,3597,0,
3597,0,3598,2,
3578,3598,3599,0,
3599,0,3600,2,
3555,3549,3601,1,
3601,0,3602,2,
3602,3546,3603,1,
3578,3603,3604,0,
3604,0,3605,2,
3600,3605,3606,0,
3597,0,3607,2,
3603,3607,3608,0,
3608,0,3609,2,
3606,3609,3610,0,
3610,0,3611,2,
3571,0,3612,2,
3611,3612,3613,0,
3613,0,3614,2,
3574,3614,3615,0,
3568,3611,3616,0,
3616,0,3617,2,
3615,3617,3618,0,
3618,0,3619,2,
3567,0,3620,2,
3562,3620,3621,0,
3621,0,3622,2,
3545,3562,3623,0,
3623,0,3624,2,
3622,3624,3625,0,
3567,0,3626,2,
3545,3626,3627,0,
3627,0,3628,2,
3625,3628,3629,0,
3629,0,3630,2,
3619,3630,3631,0,
3631,0,3632,2,
3321,3335,3633,1,
3633,3340,3634,1,
3634,0,3635,2,
3629,0,3636,2,
3635,3636,3637,0,
3637,0,3638,2,
3632,3638,3639,0,
3619,3635,3640,0,
3640,0,3641,2,
3639,3641,3642,0,
3642,0,3643,2,
3405,3487,3644,1,
3644,3408,3645,1,
3645,0,3646,2,
3643,3646,3647,0,
3647,0,3648,2,
3619,3629,3649,1,
3649,3635,3650,1,
3472,3442,3651,1,
3651,3478,3652,1,
3652,0,3653,2,
3650,3653,3654,1,
3650,3653,3655,0,
3654,3655,3656,1,
3603,3597,3657,1,
3657,0,3658,2,
3658,3578,3659,1,
3519,3505,3660,1,
3660,0,3661,2,
3661,3537,3662,1,
3662,0,3663,2,
3663,0,3664,2,
3659,3664,3665,0,
3665,0,3666,2,
3581,3579,3667,1,
3667,0,3668,2,
129,0,3669,2,
3,3669,3670,0,
3668,3670,3671,0,
3671,0,3672,2,
182,0,3673,2,
32,3673,3674,0,
3674,3670,3675,0,
3675,0,3676,2,
3672,3676,3677,0,
3668,3674,3678,0,
3678,0,3679,2,
3677,3679,3680,0,
3680,0,3681,2,
173,0,3682,2,
36,3682,3683,0,
171,0,3684,2,
38,3684,3685,0,
3683,3685,3686,0,
3686,0,3687,2,
361,0,3688,2,
1,3688,3689,0,
3685,3689,3690,0,
3690,0,3691,2,
3687,3691,3692,0,
3689,3683,3693,0,
3693,0,3694,2,
3692,3694,3695,0,
3695,0,3696,2,
3681,3696,3697,0,
3697,0,3698,2,
3513,3507,3699,1,
3699,0,3700,2,
3700,3509,3701,1,
3701,0,3702,2,
3695,0,3703,2,
3702,3703,3704,0,
3704,0,3705,2,
3698,3705,3706,0,
3681,3702,3707,0,
3707,0,3708,2,
3706,3708,3709,0,
3709,0,3710,2,
3663,0,3711,2,
3710,3711,3712,0,
3712,0,3713,2,
3666,3713,3714,0,
3659,3710,3715,0,
3715,0,3716,2,
3714,3716,3717,0,
3717,0,3718,2,
3571,3611,3719,1,
3719,3568,3720,1,
3720,0,3721,2,
3718,3721,3722,0,
3722,0,3723,2,
173,0,3724,2,
35,3724,3725,0,
171,0,3726,2,
37,3726,3727,0,
3725,3727,3728,0,
3728,0,3729,2,
134,0,3730,2,
1,3730,3731,0,
3727,3731,3732,0,
3732,0,3733,2,
3729,3733,3734,0,
3731,3725,3735,0,
3735,0,3736,2,
3734,3736,3737,0,
3737,0,3738,2,
3,34,3739,0,
33,4,3740,0,
3740,0,3741,2,
3741,0,3742,2,
3739,3742,3743,0,
3738,3743,3744,1,
3689,3683,3745,1,
3745,0,3746,2,
3746,3685,3747,1,
3747,0,3748,2,
3744,3748,3749,1,
3670,3674,3750,1,
3750,0,3751,2,
3751,3667,3752,1,
3749,3752,3753,0,
3753,0,3754,2,
126,0,3755,2,
5,3755,3756,0,
2,34,3757,0,
33,3,3758,0,
3758,0,3759,2,
3759,0,3760,2,
3757,3760,3761,0,
3756,3761,3762,0,
3762,0,3763,2,
3741,3739,3764,1,
3764,0,3765,2,
3765,3756,3766,0,
3766,0,3767,2,
3763,3767,3768,0,
3765,3761,3769,0,
3769,0,3770,2,
3768,3770,3771,0,
3771,0,3772,2,
3752,3772,3773,0,
3773,0,3774,2,
3754,3774,3775,0,
3771,0,3776,2,
3749,3776,3777,0,
3777,0,3778,2,
3775,3778,3779,0,
3779,0,3780,2,
3743,3748,3781,0,
3781,0,3782,2,
3743,3738,3783,0,
3783,0,3784,2,
3782,3784,3785,0,
3738,3748,3786,0,
3786,0,3787,2,
3785,3787,3788,0,
3788,0,3789,2,
3780,3789,3790,0,
3790,0,3791,2,
3590,3583,3792,1,
3792,3587,3793,1,
3793,0,3794,2,
3788,0,3795,2,
3794,3795,3796,0,
3796,0,3797,2,
3791,3797,3798,0,
3780,3794,3799,0,
3799,0,3800,2,
3798,3800,3801,0,
3801,0,3802,2,
3663,3710,3803,1,
3803,0,3804,2,
3804,3659,3805,1,
3805,0,3806,2,
3806,0,3807,2,
3802,3807,3808,0,
3808,0,3809,2,
3780,3788,3810,1,
3810,3794,3811,1,
3811,0,3812,2,
3681,3695,3813,1,
3813,3702,3814,1,
3814,0,3815,2,
3812,3815,3816,0,
3816,0,3817,2,
129,0,3818,2,
1,3818,3819,0,
179,0,3820,2,
32,3820,3821,0,
3819,3821,3822,1,
3822,0,3823,2,
171,0,3824,2,
36,3824,3825,0,
3823,3825,3826,1,
3826,0,3827,2,
3759,3757,3828,1,
3828,0,3829,2,
3827,3829,3830,0,
3830,0,3831,2,
129,0,3832,2,
0,3832,3833,0,
3833,0,3834,2,
33,2,3835,0,
3835,0,3836,2,
3834,3836,3837,1,
3834,3836,3838,0,
3837,3838,3839,1,
3839,0,3840,2,
3840,3829,3841,0,
3841,0,3842,2,
3831,3842,3843,0,
3827,3840,3844,0,
3844,0,3845,2,
3843,3845,3846,0,
3846,0,3847,2,
3821,3825,3848,0,
3848,0,3849,2,
3825,3819,3850,0,
3850,0,3851,2,
3849,3851,3852,0,
3821,3819,3853,0,
3853,0,3854,2,
3852,3854,3855,0,
3855,0,3856,2,
3847,3856,3857,0,
3857,0,3858,2,
3731,3725,3859,1,
3859,0,3860,2,
3860,3727,3861,1,
3861,0,3862,2,
3855,0,3863,2,
3862,3863,3864,0,
3864,0,3865,2,
3858,3865,3866,0,
3847,3862,3867,0,
3867,0,3868,2,
3866,3868,3869,0,
3869,0,3870,2,
3752,3771,3871,1,
3871,0,3872,2,
3872,3749,3873,1,
3873,0,3874,2,
3874,0,3875,2,
3870,3875,3876,0,
3876,0,3877,2,
3756,3761,3878,1,
3878,0,3879,2,
3879,3764,3880,1,
3847,3855,3881,1,
3881,3862,3882,1,
3882,0,3883,2,
3880,3883,3884,0,
3884,0,3885,2,
126,0,3886,2,
3,3886,3887,0,
34,1,3888,0,
3888,0,3889,2,
3889,0,3890,2,
3887,3890,3891,0,
3891,0,3892,2,
170,0,3893,2,
33,3893,3894,0,
128,0,3895,2,
0,3895,3896,0,
3894,3896,3897,0,
3897,0,3898,2,
3892,3898,3899,0,
3899,0,3900,2,
3829,3840,3901,1,
3901,0,3902,2,
3902,3826,3903,1,
3900,3903,3904,0,
3904,0,3905,2,
3887,3897,3906,1,
3906,0,3907,2,
3907,3889,3908,1,
3836,3834,3909,1,
3909,0,3910,2,
3910,0,3911,2,
3908,3911,3912,0,
3912,0,3913,2,
3896,3894,3914,1,
173,0,3915,2,
32,3915,3916,0,
3914,3916,3917,0,
3917,0,3918,2,
32,0,3919,0,
3919,3894,3920,0,
3916,3920,3921,0,
3921,0,3922,2,
3918,3922,3923,0,
3914,3920,3924,0,
3924,0,3925,2,
3923,3925,3926,0,
3926,0,3927,2,
3910,0,3928,2,
3927,3928,3929,0,
3929,0,3930,2,
3913,3930,3931,0,
3927,3908,3932,0,
3932,0,3933,2,
3931,3933,3934,0,
3934,0,3935,2,
3900,3935,3936,0,
3936,0,3937,2,
3905,3937,3938,0,
3935,3903,3939,0,
3939,0,3940,2,
3938,3940,3941,0,
3941,0,3942,2,
3942,3880,3943,0,
3943,0,3944,2,
3885,3944,3945,0,
3942,3883,3946,0,
3946,0,3947,2,
3945,3947,3948,0,
3948,0,3949,2,
3949,3870,3950,0,
3950,0,3951,2,
3877,3951,3952,0,
3874,0,3953,2,
3949,3953,3954,0,
3954,0,3955,2,
3952,3955,3956,0,
3956,0,3957,2,
3814,0,3958,2,
3957,3958,3959,0,
3959,0,3960,2,
3817,3960,3961,0,
3957,3812,3962,0,
3962,0,3963,2,
3961,3963,3964,0,
3964,0,3965,2,
3802,3965,3966,0,
3966,0,3967,2,
3809,3967,3968,0,
3806,0,3969,2,
3965,3969,3970,0,
3970,0,3971,2,
3968,3971,3972,0,
3972,0,3973,2,
3718,3973,3974,0,
3974,0,3975,2,
3723,3975,3976,0,
3720,0,3977,2,
3973,3977,3978,0,
3978,0,3979,2,
3976,3979,3980,0,
3980,0,3981,2,
3653,0,3982,2,
3981,3982,3983,0,
3983,0,3984,2,
3656,3984,3985,0,
3650,0,3986,2,
3981,3986,3987,0,
3987,0,3988,2,
3985,3988,3989,0,
3989,0,3990,2,
3990,3643,3991,0,
3991,0,3992,2,
3648,3992,3993,0,
3990,3646,3994,0,
3994,0,3995,2,
3993,3995,3996,0,
3996,0,3997,2,
3495,3997,3998,0,
3998,0,3999,2,
3500,3999,4000,0,
3497,0,4001,2,
3997,4001,4002,0,
4002,0,4003,2,
4000,4003,4004,0,
4004,0,4005,2,
3398,4005,4006,0,
4006,0,4007,2,
3403,4007,4008,0,
3400,0,4009,2,
4005,4009,4010,0,
4010,0,4011,2,
4008,4011,4012,0,
4012,0,4013,2,
3283,4013,4014,0,
4014,0,4015,2,
3289,4015,4016,0,
3286,0,4017,2,
4013,4017,4018,0,
4018,0,4019,2,
4016,4019,4020,0,
4020,0,4021,2,
3208,0,4022,2,
4021,4022,4023,0,
4023,0,4024,2,
3215,4024,4025,0,
3212,0,4026,2,
4021,4026,4027,0,
4027,0,4028,2,
4025,4028,4029,0,
4029,0,4030,2,
4030,3198,4031,0,
4031,0,4032,2,
3205,4032,4033,0,
3202,0,4034,2,
4030,4034,4035,0,
4035,0,4036,2,
4033,4036,4037,0,
4037,0,4038,2,
2892,4038,4039,0,
4039,0,4040,2,
2897,4040,4041,0,
2894,0,4042,2,
4038,4042,4043,0,
4043,0,4044,2,
4041,4044,4045,0,
4045,0,4046,2,
4046,2730,4047,0,
4047,0,4048,2,
2737,4048,4049,0,
2734,0,4050,2,
4046,4050,4051,0,
4051,0,4052,2,
4049,4052,4053,0,
4053,0,4054,2,
2540,4054,4055,0,
4055,0,4056,2,
2545,4056,4057,0,
2542,0,4058,2,
4054,4058,4059,0,
4059,0,4060,2,
4057,4060,4061,0,
4061,0,4062,2,
2463,4062,4063,0,
4063,0,4064,2,
2470,4064,4065,0,
2467,0,4066,2,
4062,4066,4067,0,
4067,0,4068,2,
4065,4068,4069,0,
4069,0,4070,2,
2180,4070,4071,0,
4071,0,4072,2,
2185,4072,4073,0,
2182,0,4074,2,
4070,4074,4075,0,
4075,0,4076,2,
4073,4076,4077,0,
4077,0,4078,2,
1976,4078,4079,0,
4079,0,4080,2,
1947,1958,4081,1,
4081,1964,4082,1,
4082,0,4083,2,
1976,4083,4084,0,
4084,0,4085,2,
4080,4085,4086,0,
4082,0,4087,2,
4078,4087,4088,0,
4088,0,4089,2,
4086,4089,4090,0,
4090,0,4091,2,
1972,4091,4092,0,
4092,0,4093,2,
934,1507,4094,1,
4094,1283,4095,1,
4095,0,4096,2,
4096,1972,4097,0,
4097,0,4098,2,
4093,4098,4099,0,
4090,0,4100,2,
4096,4100,4101,0,
4101,0,4102,2,
4099,4102,4103,0,
1515,4103,4104,1,
174,0,4105,2,
53,4105,4106,0,
287,0,4107,2,
4,4107,4108,0,
4106,4108,4109,1,
4109,0,4110,2,
173,0,4111,2,
54,4111,4112,0,
4110,4112,4113,1,
4113,0,4114,2,
183,0,4115,2,
49,4115,4116,0,
238,0,4117,2,
8,4117,4118,0,
4116,4118,4119,1,
4119,0,4120,2,
315,0,4121,2,
51,4121,4122,0,
4120,4122,4123,1,
4123,0,4124,2,
4114,4124,4125,1,
4125,0,4126,2,
361,0,4127,2,
19,4127,4128,0,
182,0,4129,2,
50,4129,4130,0,
4128,4130,4131,1,
4131,0,4132,2,
18,38,4133,0,
4132,4133,4134,1,
4126,4134,4135,1,
4135,0,4136,2,
1230,0,4137,2,
1240,4137,4138,0,
4138,0,4139,2,
1222,0,4140,2,
1240,4140,4141,0,
4141,0,4142,2,
4139,4142,4143,0,
1222,1230,4144,1,
1222,1230,4145,0,
4144,4145,4146,1,
4143,4146,4147,0,
4136,4147,4148,1,
870,0,4149,2,
880,4149,4150,0,
4150,0,4151,2,
880,862,4152,0,
4152,0,4153,2,
4151,4153,4154,0,
870,0,4155,2,
862,4155,4156,0,
4156,0,4157,2,
4154,4157,4158,0,
1276,1266,4159,0,
4159,0,4160,2,
1266,1264,4161,0,
4161,0,4162,2,
4160,4162,4163,0,
1264,1276,4164,0,
4164,0,4165,2,
4163,4165,4166,0,
4158,4166,4167,1,
4167,0,4168,2,
829,0,4169,2,
818,4169,4170,0,
4170,0,4171,2,
829,0,4172,2,
820,4172,4173,0,
4173,0,4174,2,
4171,4174,4175,0,
818,820,4176,0,
4176,0,4177,2,
4175,4177,4178,0,
4168,4178,4179,1,
4179,0,4180,2,
4148,4180,4181,1,
4181,0,4182,2,
931,833,4183,0,
4183,0,4184,2,
883,0,4185,2,
833,4185,4186,0,
4186,0,4187,2,
4184,4187,4188,0,
883,0,4189,2,
931,4189,4190,0,
4190,0,4191,2,
4188,4191,4192,0,
4182,4192,4193,1,
4193,0,4194,2,
899,929,4195,1,
899,929,4196,0,
4195,4196,4197,1,
899,0,4198,2,
891,4198,4199,0,
4199,0,4200,2,
4197,4200,4201,0,
929,0,4202,2,
891,4202,4203,0,
4203,0,4204,2,
4201,4204,4205,0,
852,0,4206,2,
882,4206,4207,0,
4207,0,4208,2,
882,842,4209,0,
4209,0,4210,2,
4208,4210,4211,0,
852,0,4212,2,
842,4212,4213,0,
4213,0,4214,2,
4211,4214,4215,0,
4215,0,4216,2,
4205,4216,4217,1,
129,0,4218,2,
21,4218,4219,0,
4219,125,4220,1,
259,0,4221,2,
36,4221,4222,0,
4220,4222,4223,1,
4223,0,4224,2,
1270,0,4225,2,
0,4225,4226,0,
4226,0,4227,2,
0,1274,4228,0,
4228,0,4229,2,
4227,4229,4230,0,
1270,0,4231,2,
1274,4231,4232,0,
4232,0,4233,2,
4230,4233,4234,0,
4234,0,4235,2,
4224,4235,4236,1,
149,0,4237,2,
14,4237,4238,0,
219,0,4239,2,
40,4239,4240,0,
4238,4240,4241,1,
4241,0,4242,2,
204,0,4243,2,
41,4243,4244,0,
4242,4244,4245,1,
4236,4245,4246,1,
4246,0,4247,2,
316,0,4248,2,
43,4248,4249,0,
4249,170,4250,1,
195,0,4251,2,
45,4251,4252,0,
4250,4252,4253,1,
4253,0,4254,2,
4247,4254,4255,1,
878,875,4256,0,
4256,0,4257,2,
873,878,4258,0,
4258,0,4259,2,
4257,4259,4260,0,
873,875,4261,0,
4261,0,4262,2,
4260,4262,4263,0,
828,825,4264,0,
4264,0,4265,2,
823,828,4266,0,
4266,0,4267,2,
4265,4267,4268,0,
823,825,4269,0,
4269,0,4270,2,
4268,4270,4271,0,
4271,0,4272,2,
4263,4272,4273,1,
138,0,4274,2,
17,4274,4275,0,
159,0,4276,2,
9,4276,4277,0,
4275,4277,4278,1,
4278,0,4279,2,
194,0,4280,2,
46,4280,4281,0,
4279,4281,4282,1,
4282,0,4283,2,
4273,4283,4284,1,
4284,0,4285,2,
4255,4285,4286,1,
4217,4286,4287,1,
4194,4287,4288,1,
1194,0,4289,2,
1150,4289,4290,0,
4290,0,4291,2,
1194,0,4292,2,
1282,4292,4293,0,
4293,0,4294,2,
4291,4294,4295,0,
1150,1282,4296,0,
4296,0,4297,2,
4295,4297,4298,0,
4288,4298,4299,1,
788,0,4300,2,
680,4300,4301,0,
4301,0,4302,2,
788,0,4303,2,
932,4303,4304,0,
4304,0,4305,2,
4302,4305,4306,0,
680,932,4307,0,
4307,0,4308,2,
4306,4308,4309,0,
1216,0,4310,2,
1280,4310,4311,0,
4311,0,4312,2,
1216,0,4313,2,
1206,4313,4314,0,
4314,0,4315,2,
4312,4315,4316,0,
1280,1206,4317,0,
4317,0,4318,2,
4316,4318,4319,0,
4309,4319,4320,1,
4320,0,4321,2,
1253,0,4322,2,
1278,4322,4323,0,
4323,0,4324,2,
1242,1253,4325,1,
1242,1253,4326,0,
4325,4326,4327,1,
4324,4327,4328,0,
1242,0,4329,2,
1278,4329,4330,0,
4330,0,4331,2,
4328,4331,4332,0,
807,0,4333,2,
831,4333,4334,0,
4334,0,4335,2,
797,0,4336,2,
831,4336,4337,0,
4337,0,4338,2,
4335,4338,4339,0,
797,807,4340,1,
797,807,4341,0,
4340,4341,4342,1,
4339,4342,4343,0,
4332,4343,4344,1,
4344,0,4345,2,
1262,1259,4346,0,
4346,0,4347,2,
1257,1262,4348,0,
4348,0,4349,2,
4347,4349,4350,0,
1257,1259,4351,0,
4351,0,4352,2,
4350,4352,4353,0,
32,889,4354,0,
4354,0,4355,2,
887,889,4356,0,
4356,0,4357,2,
4355,4357,4358,0,
32,887,4359,0,
4359,0,4360,2,
4358,4360,4361,0,
4353,4361,4362,1,
4362,0,4363,2,
22,34,4364,0,
4364,0,4365,2,
44,12,4366,0,
4365,4366,4367,1,
4363,4367,4368,1,
4368,0,4369,2,
918,0,4370,2,
928,4370,4371,0,
4371,0,4372,2,
928,910,4373,0,
4373,0,4374,2,
4372,4374,4375,0,
918,0,4376,2,
910,4376,4377,0,
4377,0,4378,2,
4375,4378,4379,0,
4379,0,4380,2,
4369,4380,4381,1,
4381,0,4382,2,
926,923,4383,0,
4383,0,4384,2,
921,926,4385,0,
4385,0,4386,2,
4384,4386,4387,0,
921,923,4388,0,
4388,0,4389,2,
4387,4389,4390,0,
1221,0,4391,2,
1219,4391,4392,0,
4390,4392,4393,1,
4393,0,4394,2,
1238,1235,4395,0,
4395,0,4396,2,
1233,1238,4397,0,
4397,0,4398,2,
4396,4398,4399,0,
1233,1235,4400,0,
4400,0,4401,2,
4399,4401,4402,0,
4394,4402,4403,1,
4403,0,4404,2,
4382,4404,4405,1,
4345,4405,4406,1,
4406,0,4407,2,
4321,4407,4408,1,
4408,0,4409,2,
4299,4409,4410,1,
4410,0,4411,2,
4104,4411,4412,1,
4412,0,4413,2,
423,422,4414,0,
406,360,4415,1,
4414,4415,4416,0,
4416,0,4417,2,
421,0,4418,2,
4417,4418,4419,0,
4419,0,4420,2,
4420,417,4421,0,
4421,0,4422,2,
420,0,4423,2,
4422,4423,4424,0,
4424,0,4425,2,
4413,4425,4426,0,
4426,0,4427,2,
54,22,4428,1,
4428,0,4429,2,
21,53,4430,0,
4430,0,4431,2,
54,22,4432,0,
21,4432,4433,0,
4433,0,4434,2,
4431,4434,4435,0,
53,4432,4436,0,
4436,0,4437,2,
4435,4437,4438,0,
4429,4438,4439,1,
22,52,4440,0,
4440,0,4441,2,
4441,242,4442,1,
4442,0,4443,2,
259,0,4444,2,
53,4444,4445,0,
18,4445,4446,0,
4446,0,4447,2,
223,0,4448,2,
54,4448,4449,0,
18,4449,4450,0,
4450,0,4451,2,
4447,4451,4452,0,
4445,4449,4453,0,
4453,0,4454,2,
4452,4454,4455,0,
4443,4455,4456,1,
4445,222,4457,1,
4457,4449,4458,1,
4458,0,4459,2,
258,0,4460,2,
51,4460,4461,0,
49,4461,4462,0,
4462,0,4463,2,
241,0,4464,2,
22,4464,4465,0,
49,4465,4466,0,
4466,0,4467,2,
4463,4467,4468,0,
4461,4465,4469,0,
4469,0,4470,2,
4468,4470,4471,0,
4471,0,4472,2,
4459,4472,4473,0,
4473,0,4474,2,
223,0,4475,2,
53,4475,4476,0,
17,4476,4477,0,
4477,0,4478,2,
222,0,4479,2,
54,4479,4480,0,
17,4480,4481,0,
4481,0,4482,2,
4478,4482,4483,0,
4476,4480,4484,0,
4484,0,4485,2,
4483,4485,4486,0,
4486,0,4487,2,
4487,4459,4488,0,
4488,0,4489,2,
4474,4489,4490,0,
4471,0,4491,2,
4487,4491,4492,0,
4492,0,4493,2,
4490,4493,4494,0,
4494,0,4495,2,
661,0,4496,2,
51,4496,4497,0,
50,4497,4498,0,
4498,0,4499,2,
287,0,4500,2,
21,4500,4501,0,
50,4501,4502,0,
4502,0,4503,2,
4499,4503,4504,0,
4497,4501,4505,0,
4505,0,4506,2,
4504,4506,4507,0,
4495,4507,4508,1,
258,0,4509,2,
53,4509,4510,0,
4510,223,4511,1,
259,0,4512,2,
54,4512,4513,0,
4511,4513,4514,1,
4514,0,4515,2,
4508,4515,4516,1,
4516,0,4517,2,
4456,4517,4518,0,
4518,0,4519,2,
4497,241,4520,1,
4520,4501,4521,1,
4521,0,4522,2,
4486,4471,4523,1,
4523,0,4524,2,
4524,4459,4525,1,
4525,0,4526,2,
4522,4526,4527,0,
4527,0,4528,2,
287,0,4529,2,
20,4529,4530,0,
4461,363,4531,1,
4531,4465,4532,1,
4532,0,4533,2,
4530,4533,4534,0,
4534,0,4535,2,
4476,317,4536,1,
4536,4480,4537,1,
4537,0,4538,2,
4538,4530,4539,0,
4539,0,4540,2,
4535,4540,4541,0,
4538,4533,4542,0,
4542,0,4543,2,
4541,4543,4544,0,
4544,0,4545,2,
4545,4522,4546,0,
4546,0,4547,2,
4528,4547,4548,0,
4525,0,4549,2,
4545,4549,4550,0,
4550,0,4551,2,
4548,4551,4552,0,
4552,0,4553,2,
4456,4553,4554,0,
4554,0,4555,2,
4519,4555,4556,0,
4552,0,4557,2,
4517,4557,4558,0,
4558,0,4559,2,
4556,4559,4560,0,
4456,4552,4561,1,
4561,4517,4562,1,
4562,0,4563,2,
258,0,4564,2,
50,4564,4565,0,
18,53,4566,0,
4566,0,4567,2,
4567,219,4568,1,
4568,0,4569,2,
54,17,4570,0,
4569,4570,4571,1,
4571,0,4572,2,
4565,4572,4573,0,
4573,0,4574,2,
48,4565,4575,0,
4575,0,4576,2,
4574,4576,4577,0,
4571,0,4578,2,
48,4578,4579,0,
4579,0,4580,2,
4577,4580,4581,0,
4581,0,4582,2,
4567,0,4583,2,
16,4583,4584,0,
4584,0,4585,2,
16,4570,4586,0,
4586,0,4587,2,
4585,4587,4588,0,
4567,0,4589,2,
4570,4589,4590,0,
4590,0,4591,2,
4588,4591,4592,0,
4582,4592,4593,1,
363,0,4594,2,
22,4594,4595,0,
287,0,4596,2,
19,4596,4597,0,
4595,4597,4598,0,
4598,0,4599,2,
259,0,4600,2,
51,4600,4601,0,
4597,4601,4602,0,
4602,0,4603,2,
4599,4603,4604,0,
4601,4595,4605,0,
4605,0,4606,2,
4604,4606,4607,0,
4593,4607,4608,1,
19,51,4609,0,
4609,0,4610,2,
4610,159,4611,1,
4611,0,4612,2,
287,0,4613,2,
18,4613,4614,0,
4612,4614,4615,1,
4615,0,4616,2,
258,0,4617,2,
49,4617,4618,0,
661,0,4619,2,
48,4619,4620,0,
4618,4620,4621,1,
4621,0,4622,2,
241,0,4623,2,
20,4623,4624,0,
4622,4624,4625,1,
4625,0,4626,2,
4616,4626,4627,0,
4627,0,4628,2,
17,53,4629,0,
4629,0,4630,2,
4630,204,4631,1,
4631,0,4632,2,
219,0,4633,2,
54,4633,4634,0,
4632,4634,4635,1,
4635,0,4636,2,
4636,4616,4637,0,
4637,0,4638,2,
4628,4638,4639,0,
4625,0,4640,2,
4636,4640,4641,0,
4641,0,4642,2,
4639,4642,4643,0,
4643,0,4644,2,
4620,4624,4645,0,
4645,0,4646,2,
4624,4618,4647,0,
4647,0,4648,2,
4646,4648,4649,0,
4620,4618,4650,0,
4650,0,4651,2,
4649,4651,4652,0,
4652,0,4653,2,
4644,4653,4654,0,
4654,0,4655,2,
4565,238,4656,1,
4656,4571,4657,1,
4652,0,4658,2,
4657,4658,4659,0,
4659,0,4660,2,
4655,4660,4661,0,
4644,4657,4662,0,
4662,0,4663,2,
4661,4663,4664,0,
4664,0,4665,2,
4601,4595,4666,1,
4666,0,4667,2,
4667,4597,4668,1,
4668,0,4669,2,
4630,0,4670,2,
15,4670,4671,0,
4671,0,4672,2,
15,4634,4673,0,
4673,0,4674,2,
4672,4674,4675,0,
4630,0,4676,2,
4634,4676,4677,0,
4677,0,4678,2,
4675,4678,4679,0,
4679,0,4680,2,
4669,4680,4681,0,
4681,0,4682,2,
47,4614,4683,0,
4683,0,4684,2,
4610,0,4685,2,
4614,4685,4686,0,
4686,0,4687,2,
4684,4687,4688,0,
4610,0,4689,2,
47,4689,4690,0,
4690,0,4691,2,
4688,4691,4692,0,
4692,0,4693,2,
4679,0,4694,2,
4693,4694,4695,0,
4695,0,4696,2,
4682,4696,4697,0,
4693,4669,4698,0,
4698,0,4699,2,
4697,4699,4700,0,
4665,4700,4701,1,
4537,4530,4702,1,
4702,4533,4703,1,
4703,0,4704,2,
4701,4704,4705,1,
4705,0,4706,2,
4608,4706,4707,0,
4707,0,4708,2,
4636,4616,4709,1,
4709,0,4710,2,
4710,4625,4711,1,
259,0,4712,2,
49,4712,4713,0,
258,0,4714,2,
48,4714,4715,0,
4713,4715,4716,1,
4716,0,4717,2,
241,0,4718,2,
19,4718,4719,0,
4717,4719,4720,1,
4720,0,4721,2,
204,0,4722,2,
53,4722,4723,0,
13,4723,4724,0,
4724,0,4725,2,
203,0,4726,2,
54,4726,4727,0,
13,4727,4728,0,
4728,0,4729,2,
4725,4729,4730,0,
4723,4727,4731,0,
4731,0,4732,2,
4730,4732,4733,0,
4733,0,4734,2,
4721,4734,4735,0,
4735,0,4736,2,
287,0,4737,2,
16,4737,4738,0,
259,0,4739,2,
48,4739,4740,0,
4738,4740,4741,0,
4741,0,4742,2,
223,0,4743,2,
49,4743,4744,0,
4740,4744,4745,0,
4745,0,4746,2,
4742,4746,4747,0,
4744,4738,4748,0,
4748,0,4749,2,
4747,4749,4750,0,
4750,0,4751,2,
4734,4751,4752,0,
4752,0,4753,2,
4736,4753,4754,0,
4721,4751,4755,0,
4755,0,4756,2,
4754,4756,4757,0,
4757,0,4758,2,
4711,4758,4759,0,
4759,0,4760,2,
661,0,4761,2,
47,4761,4762,0,
16,53,4763,0,
4763,0,4764,2,
4764,203,4765,1,
4765,0,4766,2,
204,0,4767,2,
54,4767,4768,0,
4766,4768,4769,1,
4769,0,4770,2,
4762,4770,4771,0,
4771,0,4772,2,
18,51,4773,0,
4773,0,4774,2,
4774,158,4775,1,
4775,0,4776,2,
287,0,4777,2,
17,4777,4778,0,
4776,4778,4779,1,
4779,0,4780,2,
4780,4762,4781,0,
4781,0,4782,2,
4772,4782,4783,0,
4769,0,4784,2,
4780,4784,4785,0,
4785,0,4786,2,
4783,4786,4787,0,
4787,0,4788,2,
4788,4711,4789,0,
4789,0,4790,2,
4760,4790,4791,0,
4757,0,4792,2,
4788,4792,4793,0,
4793,0,4794,2,
4791,4794,4795,0,
4795,0,4796,2,
4764,0,4797,2,
14,4797,4798,0,
4798,0,4799,2,
14,4768,4800,0,
4800,0,4801,2,
4799,4801,4802,0,
4764,0,4803,2,
4768,4803,4804,0,
4804,0,4805,2,
4802,4805,4806,0,
4806,0,4807,2,
4715,4719,4808,0,
4808,0,4809,2,
4719,4713,4810,0,
4810,0,4811,2,
4809,4811,4812,0,
4715,4713,4813,0,
4813,0,4814,2,
4812,4814,4815,0,
4815,0,4816,2,
4807,4816,4817,0,
4817,0,4818,2,
46,4778,4819,0,
4819,0,4820,2,
4774,0,4821,2,
4778,4821,4822,0,
4822,0,4823,2,
4820,4823,4824,0,
4774,0,4825,2,
46,4825,4826,0,
4826,0,4827,2,
4824,4827,4828,0,
4828,4815,4829,1,
4828,4815,4830,0,
4829,4830,4831,1,
4818,4831,4832,0,
4828,0,4833,2,
4807,4833,4834,0,
4834,0,4835,2,
4832,4835,4836,0,
4836,0,4837,2,
4796,4837,4838,0,
4838,0,4839,2,
4692,4679,4840,1,
4840,0,4841,2,
4841,4669,4842,1,
4842,0,4843,2,
4836,0,4844,2,
4843,4844,4845,0,
4845,0,4846,2,
4839,4846,4847,0,
4843,4796,4848,0,
4848,0,4849,2,
4847,4849,4850,0,
4850,0,4851,2,
4608,4851,4852,0,
4852,0,4853,2,
4708,4853,4854,0,
4850,0,4855,2,
4706,4855,4856,0,
4856,0,4857,2,
4854,4857,4858,0,
4644,4652,4859,1,
4859,4657,4860,1,
4860,0,4861,2,
4796,4836,4862,1,
4862,4842,4863,1,
4863,0,4864,2,
4864,0,4865,2,
4861,4865,4866,0,
4866,0,4867,2,
4806,4815,4868,1,
4868,0,4869,2,
4869,4828,4870,1,
4723,316,4871,1,
4871,4727,4872,1,
4872,0,4873,2,
287,0,4874,2,
15,4874,4875,0,
223,0,4876,2,
48,4876,4877,0,
4875,4877,4878,0,
4878,0,4879,2,
159,0,4880,2,
20,4880,4881,0,
4877,4881,4882,0,
4882,0,4883,2,
4879,4883,4884,0,
4881,4875,4885,0,
4885,0,4886,2,
4884,4886,4887,0,
4887,0,4888,2,
4873,4888,4889,0,
4889,0,4890,2,
203,0,4891,2,
53,4891,4892,0,
12,4892,4893,0,
4893,0,4894,2,
316,0,4895,2,
54,4895,4896,0,
12,4896,4897,0,
4897,0,4898,2,
4894,4898,4899,0,
4892,4896,4900,0,
4900,0,4901,2,
4899,4901,4902,0,
4902,0,4903,2,
4903,4873,4904,0,
4904,0,4905,2,
4890,4905,4906,0,
4887,0,4907,2,
4903,4907,4908,0,
4908,0,4909,2,
4906,4909,4910,0,
4910,0,4911,2,
661,0,4912,2,
45,4912,4913,0,
242,0,4914,2,
16,4914,4915,0,
4913,4915,4916,0,
4916,0,4917,2,
158,0,4918,2,
21,4918,4919,0,
4915,4919,4920,0,
4920,0,4921,2,
4917,4921,4922,0,
4919,4913,4923,0,
4923,0,4924,2,
4922,4924,4925,0,
4925,0,4926,2,
317,0,4927,2,
50,4927,4928,0,
44,4928,4929,0,
4929,0,4930,2,
363,0,4931,2,
18,4931,4932,0,
44,4932,4933,0,
4933,0,4934,2,
4930,4934,4935,0,
4928,4932,4936,0,
4936,0,4937,2,
4935,4937,4938,0,
4938,0,4939,2,
4926,4939,4940,0,
4940,0,4941,2,
317,0,4942,2,
51,4942,4943,0,
241,0,4944,2,
18,4944,4945,0,
4943,4945,4946,1,
4946,0,4947,2,
258,0,4948,2,
47,4948,4949,0,
4947,4949,4950,1,
4950,4938,4951,1,
4950,4938,4952,0,
4951,4952,4953,1,
4941,4953,4954,0,
4950,0,4955,2,
4926,4955,4956,0,
4956,0,4957,2,
4954,4957,4958,0,
4958,0,4959,2,
4911,4959,4960,0,
4960,0,4961,2,
158,0,4962,2,
22,4962,4963,0,
4744,4738,4964,1,
4964,0,4965,2,
4965,4740,4966,1,
4966,0,4967,2,
4963,4967,4968,0,
4968,0,4969,2,
45,4963,4970,0,
4970,0,4971,2,
4969,4971,4972,0,
45,4967,4973,0,
4973,0,4974,2,
4972,4974,4975,0,
4975,4958,4976,1,
4975,4958,4977,0,
4976,4977,4978,1,
4961,4978,4979,0,
4975,0,4980,2,
4911,4980,4981,0,
4981,0,4982,2,
4979,4982,4983,0,
4983,0,4984,2,
4870,4984,4985,0,
4985,0,4986,2,
4751,4734,4987,1,
4987,0,4988,2,
4988,4720,4989,1,
4945,4949,4990,0,
4990,0,4991,2,
4949,4943,4992,0,
4992,0,4993,2,
4991,4993,4994,0,
4945,4943,4995,0,
4995,0,4996,2,
4994,4996,4997,0,
4997,0,4998,2,
4989,4998,4999,0,
4999,0,5000,2,
4780,4762,5001,1,
5001,0,5002,2,
5002,4769,5003,1,
5003,0,5004,2,
5004,0,5005,2,
4997,0,5006,2,
5005,5006,5007,0,
5007,0,5008,2,
5000,5008,5009,0,
5005,4989,5010,0,
5010,0,5011,2,
5009,5011,5012,0,
5012,0,5013,2,
4870,5013,5014,0,
5014,0,5015,2,
4986,5015,5016,0,
5012,4983,5017,1,
5012,4983,5018,0,
5017,5018,5019,1,
5016,5019,5020,0,
5020,0,5021,2,
5021,4861,5022,0,
5022,0,5023,2,
4867,5023,5024,0,
4864,0,5025,2,
5021,5025,5026,0,
5026,0,5027,2,
5024,5027,5028,0,
5028,0,5029,2,
4787,4757,5030,1,
5030,0,5031,2,
5031,4711,5032,1,
5032,0,5033,2,
5012,4983,5034,1,
5034,0,5035,2,
5035,4870,5036,1,
5036,0,5037,2,
5033,5037,5038,0,
5038,0,5039,2,
4910,4958,5040,1,
5040,0,5041,2,
5041,4975,5042,1,
5042,0,5043,2,
5043,0,5044,2,
5004,4997,5045,1,
5045,4989,5046,1,
5046,0,5047,2,
5047,0,5048,2,
5044,5048,5049,0,
5049,0,5050,2,
4902,4887,5051,1,
5051,0,5052,2,
5052,4873,5053,1,
5053,0,5054,2,
4926,4938,5055,1,
5055,4950,5056,1,
5054,5056,5057,0,
5057,0,5058,2,
4963,362,5059,1,
5059,4967,5060,1,
5060,0,5061,2,
5054,5061,5062,0,
5062,0,5063,2,
5058,5063,5064,0,
5056,5061,5065,0,
5065,0,5066,2,
5064,5066,5067,0,
5067,0,5068,2,
5047,0,5069,2,
5068,5069,5070,0,
5070,0,5071,2,
5050,5071,5072,0,
5044,5068,5073,0,
5073,0,5074,2,
5072,5074,5075,0,
5075,0,5076,2,
5033,5076,5077,0,
5077,0,5078,2,
5039,5078,5079,0,
5075,5036,5080,1,
5075,5036,5081,0,
5080,5081,5082,1,
5079,5082,5083,0,
5083,0,5084,2,
4919,4913,5085,1,
5085,0,5086,2,
5086,4915,5087,1,
5087,0,5088,2,
4881,4875,5089,1,
5089,0,5090,2,
5090,4877,5091,1,
5091,0,5092,2,
4928,155,5093,1,
5093,4932,5094,1,
5094,0,5095,2,
5092,5095,5096,1,
5096,0,5097,2,
4892,200,5098,1,
5098,4896,5099,1,
5099,0,5100,2,
5097,5100,5101,1,
5101,0,5102,2,
5088,5102,5103,0,
5103,0,5104,2,
259,0,5105,2,
46,5105,5106,0,
242,0,5107,2,
15,5107,5108,0,
5106,5108,5109,0,
5109,0,5110,2,
219,0,5111,2,
50,5111,5112,0,
5108,5112,5113,0,
5113,0,5114,2,
5110,5114,5115,0,
5112,5106,5116,0,
5116,0,5117,2,
5115,5117,5118,0,
5118,0,5119,2,
5088,5119,5120,0,
5120,0,5121,2,
5104,5121,5122,0,
5118,0,5123,2,
5102,5123,5124,0,
5124,0,5125,2,
5122,5125,5126,0,
5126,0,5127,2,
5100,5095,5128,0,
5128,0,5129,2,
5092,5095,5130,0,
5130,0,5131,2,
5129,5131,5132,0,
5100,5092,5133,0,
5133,0,5134,2,
5132,5134,5135,0,
5127,5135,5136,1,
203,0,5137,2,
52,5137,5138,0,
661,0,5139,2,
44,5139,5140,0,
5138,5140,5141,0,
5141,0,5142,2,
43,5140,5143,0,
5143,0,5144,2,
5142,5144,5145,0,
43,5138,5146,0,
5146,0,5147,2,
5145,5147,5148,0,
5148,0,5149,2,
238,0,5150,2,
18,5150,5151,0,
11,5151,5152,0,
5152,0,5153,2,
200,0,5154,2,
54,5154,5155,0,
11,5155,5156,0,
5156,0,5157,2,
5153,5157,5158,0,
5151,5155,5159,0,
5159,0,5160,2,
5158,5160,5161,0,
5161,0,5162,2,
5149,5162,5163,0,
5163,0,5164,2,
286,0,5165,2,
13,5165,5166,0,
223,0,5167,2,
47,5167,5168,0,
5166,5168,5169,0,
5169,0,5170,2,
317,0,5171,2,
49,5171,5172,0,
5168,5172,5173,0,
5173,0,5174,2,
5170,5174,5175,0,
5172,5166,5176,0,
5176,0,5177,2,
5175,5177,5178,0,
5178,5161,5179,1,
5178,5161,5180,0,
5179,5180,5181,1,
5164,5181,5182,0,
5178,0,5183,2,
5149,5183,5184,0,
5184,0,5185,2,
5182,5185,5186,0,
5136,5186,5187,1,
241,0,5188,2,
15,5188,5189,0,
287,0,5190,2,
13,5190,5191,0,
5189,5191,5192,0,
5192,0,5193,2,
203,0,5194,2,
51,5194,5195,0,
5191,5195,5196,0,
5196,0,5197,2,
5193,5197,5198,0,
5195,5189,5199,0,
5199,0,5200,2,
5198,5200,5201,0,
5201,0,5202,2,
317,0,5203,2,
48,5203,5204,0,
42,5204,5205,0,
5205,0,5206,2,
155,0,5207,2,
21,5207,5208,0,
5208,5204,5209,0,
5209,0,5210,2,
5206,5210,5211,0,
42,5208,5212,0,
5212,0,5213,2,
5211,5213,5214,0,
5214,0,5215,2,
5202,5215,5216,0,
5216,0,5217,2,
5112,5106,5218,1,
5218,0,5219,2,
5219,5108,5220,1,
5220,0,5221,2,
5221,5215,5222,0,
5222,0,5223,2,
5217,5223,5224,0,
5221,5202,5225,0,
5225,0,5226,2,
5224,5226,5227,0,
5227,0,5228,2,
259,0,5229,2,
45,5229,5230,0,
222,0,5231,2,
47,5231,5232,0,
5230,5232,5233,0,
5233,0,5234,2,
158,0,5235,2,
19,5235,5236,0,
5232,5236,5237,0,
5237,0,5238,2,
5234,5238,5239,0,
5236,5230,5240,0,
5240,0,5241,2,
5239,5241,5242,0,
5242,0,5243,2,
200,0,5244,2,
53,5244,5245,0,
10,5245,5246,0,
5246,0,5247,2,
195,0,5248,2,
54,5248,5249,0,
10,5249,5250,0,
5250,0,5251,2,
5247,5251,5252,0,
5245,5249,5253,0,
5253,0,5254,2,
5252,5254,5255,0,
5243,5255,5256,1,
5151,195,5257,1,
5257,5155,5258,1,
5258,0,5259,2,
5256,5259,5260,1,
5260,0,5261,2,
5202,5215,5262,1,
5262,0,5263,2,
5263,5221,5264,1,
5264,0,5265,2,
5261,5265,5266,0,
5266,0,5267,2,
5138,150,5268,1,
5268,5140,5269,1,
5269,0,5270,2,
258,0,5271,2,
45,5271,5272,0,
5270,5272,5273,1,
5273,0,5274,2,
5172,5166,5275,1,
5275,0,5276,2,
5276,5168,5277,1,
5277,0,5278,2,
5274,5278,5279,1,
5279,0,5280,2,
5280,5261,5281,0,
5281,0,5282,2,
5267,5282,5283,0,
5280,5265,5284,0,
5284,0,5285,2,
5283,5285,5286,0,
5286,0,5287,2,
5228,5287,5288,0,
5288,0,5289,2,
5088,5118,5290,1,
5290,0,5291,2,
5291,5102,5292,1,
5292,5228,5293,0,
5293,0,5294,2,
5289,5294,5295,0,
5286,0,5296,2,
5292,5296,5297,0,
5297,0,5298,2,
5295,5298,5299,0,
5299,0,5300,2,
5148,5161,5301,1,
5301,0,5302,2,
5302,5178,5303,1,
5303,0,5304,2,
5304,0,5305,2,
5278,5272,5306,0,
5306,0,5307,2,
5272,5270,5308,0,
5308,0,5309,2,
5307,5309,5310,0,
5278,5270,5311,0,
5311,0,5312,2,
5310,5312,5313,0,
5313,0,5314,2,
5305,5314,5315,0,
5315,0,5316,2,
5255,0,5317,2,
5243,5317,5318,0,
5318,0,5319,2,
5255,0,5320,2,
5259,5320,5321,0,
5321,0,5322,2,
5319,5322,5323,0,
5259,5243,5324,0,
5324,0,5325,2,
5323,5325,5326,0,
5326,0,5327,2,
5314,5327,5328,0,
5328,0,5329,2,
5316,5329,5330,0,
5326,0,5331,2,
5305,5331,5332,0,
5332,0,5333,2,
5330,5333,5334,0,
5300,5334,5335,1,
5061,5054,5336,1,
5336,0,5337,2,
5337,5056,5338,1,
5338,0,5339,2,
5335,5339,5340,1,
5340,0,5341,2,
5187,5341,5342,0,
5342,0,5343,2,
5208,149,5344,1,
5344,5204,5345,1,
5345,0,5346,2,
16,49,5347,0,
5347,0,5348,2,
5348,0,5349,2,
5346,5349,5350,0,
5350,0,5351,2,
661,0,5352,2,
43,5352,5353,0,
5348,0,5354,2,
5353,5354,5355,0,
5355,0,5356,2,
5351,5356,5357,0,
5353,5346,5358,0,
5358,0,5359,2,
5357,5359,5360,0,
5360,0,5361,2,
5195,5189,5362,1,
5362,0,5363,2,
5363,5191,5364,1,
5364,0,5365,2,
5236,5230,5366,1,
5366,0,5367,2,
5367,5232,5368,1,
5368,0,5369,2,
5365,5369,5370,0,
5370,0,5371,2,
241,0,5372,2,
14,5372,5373,0,
287,0,5374,2,
12,5374,5375,0,
5373,5375,5376,0,
5376,0,5377,2,
316,0,5378,2,
51,5378,5379,0,
5375,5379,5380,0,
5380,0,5381,2,
5377,5381,5382,0,
5373,5379,5383,0,
5383,0,5384,2,
5382,5384,5385,0,
5385,0,5386,2,
5386,5365,5387,0,
5387,0,5388,2,
5371,5388,5389,0,
5386,5369,5390,0,
5390,0,5391,2,
5389,5391,5392,0,
5392,0,5393,2,
5361,5393,5394,0,
5394,0,5395,2,
259,0,5396,2,
44,5396,5397,0,
41,5397,5398,0,
5398,0,5399,2,
16,48,5400,0,
5400,0,5401,2,
5401,0,5402,2,
5397,5402,5403,0,
5403,0,5404,2,
5399,5404,5405,0,
5401,0,5406,2,
41,5406,5407,0,
5407,0,5408,2,
5405,5408,5409,0,
5409,0,5410,2,
195,0,5411,2,
53,5411,5412,0,
9,5412,5413,0,
5413,0,5414,2,
194,0,5415,2,
54,5415,5416,0,
9,5416,5417,0,
5417,0,5418,2,
5414,5418,5419,0,
5412,5416,5420,0,
5420,0,5421,2,
5419,5421,5422,0,
5422,0,5423,2,
5410,5423,5424,0,
5424,0,5425,2,
223,0,5426,2,
45,5426,5427,0,
222,0,5428,2,
46,5428,5429,0,
5427,5429,5430,0,
5430,0,5431,2,
159,0,5432,2,
17,5432,5433,0,
5429,5433,5434,0,
5434,0,5435,2,
5431,5435,5436,0,
5427,5433,5437,0,
5437,0,5438,2,
5436,5438,5439,0,
5439,0,5440,2,
5440,5423,5441,0,
5441,0,5442,2,
5425,5442,5443,0,
5440,5410,5444,0,
5444,0,5445,2,
5443,5445,5446,0,
5446,5392,5447,1,
5446,5392,5448,0,
5447,5448,5449,1,
5395,5449,5450,0,
5446,0,5451,2,
5361,5451,5452,0,
5452,0,5453,2,
5450,5453,5454,0,
5280,5261,5455,1,
5455,0,5456,2,
5456,5265,5457,1,
5457,0,5458,2,
5348,5353,5459,1,
5459,5346,5460,1,
5460,0,5461,2,
661,0,5462,2,
41,5462,5463,0,
223,0,5464,2,
44,5464,5465,0,
5463,5465,5466,0,
5466,0,5467,2,
150,0,5468,2,
20,5468,5469,0,
5465,5469,5470,0,
5470,0,5471,2,
5467,5471,5472,0,
5469,5463,5473,0,
5473,0,5474,2,
5472,5474,5475,0,
5475,0,5476,2,
194,0,5477,2,
53,5477,5478,0,
8,5478,5479,0,
5479,0,5480,2,
191,0,5481,2,
54,5481,5482,0,
8,5482,5483,0,
5483,0,5484,2,
5480,5484,5485,0,
5478,5482,5486,0,
5486,0,5487,2,
5485,5487,5488,0,
5488,0,5489,2,
5476,5489,5490,0,
5490,0,5491,2,
219,0,5492,2,
47,5492,5493,0,
317,0,5494,2,
46,5494,5495,0,
5493,5495,5496,0,
5496,0,5497,2,
362,0,5498,2,
18,5498,5499,0,
5495,5499,5500,0,
5500,0,5501,2,
5497,5501,5502,0,
5499,5493,5503,0,
5503,0,5504,2,
5502,5504,5505,0,
5505,5488,5506,1,
5505,5488,5507,0,
5506,5507,5508,1,
5491,5508,5509,0,
5505,0,5510,2,
5476,5510,5511,0,
5511,0,5512,2,
5509,5512,5513,0,
5513,0,5514,2,
5461,5514,5515,0,
5515,0,5516,2,
5379,5373,5517,1,
5517,0,5518,2,
5518,5375,5519,1,
5519,0,5520,2,
5433,5427,5521,1,
5521,0,5522,2,
5522,5429,5523,1,
5523,0,5524,2,
5520,5524,5525,0,
5525,0,5526,2,
5401,146,5527,1,
5527,0,5528,2,
5528,5397,5529,1,
5529,0,5530,2,
5530,5520,5531,0,
5531,0,5532,2,
5526,5532,5533,0,
5523,0,5534,2,
5530,5534,5535,0,
5535,0,5536,2,
5533,5536,5537,0,
5537,0,5538,2,
5461,5538,5539,0,
5539,0,5540,2,
5516,5540,5541,0,
5537,0,5542,2,
5514,5542,5543,0,
5543,0,5544,2,
5541,5544,5545,0,
5545,0,5546,2,
5458,5546,5547,0,
5547,0,5548,2,
661,0,5549,2,
42,5549,5550,0,
363,0,5551,2,
15,5551,5552,0,
5550,5552,5553,0,
5553,0,5554,2,
150,0,5555,2,
21,5555,5556,0,
5552,5556,5557,0,
5557,0,5558,2,
5554,5558,5559,0,
5556,5550,5560,0,
5560,0,5561,2,
5559,5561,5562,0,
5562,0,5563,2,
5410,5423,5564,1,
5564,0,5565,2,
5565,5439,5566,1,
5563,5566,5567,0,
5567,0,5568,2,
5245,194,5569,1,
5569,5249,5570,1,
5570,0,5571,2,
5563,5571,5572,0,
5572,0,5573,2,
5568,5573,5574,0,
5566,5571,5575,0,
5575,0,5576,2,
5574,5576,5577,0,
5577,0,5578,2,
5578,5458,5579,0,
5579,0,5580,2,
5548,5580,5581,0,
5545,0,5582,2,
5578,5582,5583,0,
5583,0,5584,2,
5581,5584,5585,0,
5454,5585,5586,1,
5454,5585,5587,0,
5586,5587,5588,1,
5326,5313,5589,1,
5589,0,5590,2,
5590,5304,5591,1,
5454,0,5592,2,
5591,5592,5593,0,
5593,0,5594,2,
5588,5594,5595,0,
5585,0,5596,2,
5591,5596,5597,0,
5597,0,5598,2,
5595,5598,5599,0,
5599,0,5600,2,
5187,5600,5601,0,
5601,0,5602,2,
5343,5602,5603,0,
5599,0,5604,2,
5341,5604,5605,0,
5605,0,5606,2,
5603,5606,5607,0,
5585,5454,5608,1,
5608,0,5609,2,
5609,5591,5610,1,
5286,5228,5611,1,
5611,5292,5612,1,
5610,5612,5613,1,
5610,5612,5614,0,
5613,5614,5615,1,
5360,5392,5616,1,
5616,0,5617,2,
5617,5446,5618,1,
5537,5514,5619,1,
5619,5460,5620,1,
5530,5520,5621,1,
5621,0,5622,2,
5622,5523,5623,1,
5623,0,5624,2,
5624,0,5625,2,
204,0,5626,2,
48,5626,5627,0,
242,0,5628,2,
12,5628,5629,0,
5627,5629,5630,0,
5630,0,5631,2,
316,0,5632,2,
50,5632,5633,0,
5629,5633,5634,0,
5634,0,5635,2,
5631,5635,5636,0,
5633,5627,5637,0,
5637,0,5638,2,
5636,5638,5639,0,
5639,0,5640,2,
5625,5640,5641,0,
5641,0,5642,2,
5475,5488,5643,1,
5643,0,5644,2,
5644,5505,5645,1,
5639,0,5646,2,
5645,5646,5647,0,
5647,0,5648,2,
5642,5648,5649,0,
5625,5645,5650,0,
5650,0,5651,2,
5649,5651,5652,0,
5652,0,5653,2,
5620,5653,5654,0,
5654,0,5655,2,
5556,5550,5656,1,
5656,0,5657,2,
5657,5552,5658,1,
5658,0,5659,2,
203,0,5660,2,
49,5660,5661,0,
40,5661,5662,0,
5662,0,5663,2,
287,0,5664,2,
11,5664,5665,0,
40,5665,5666,0,
5666,0,5667,2,
5663,5667,5668,0,
5661,5665,5669,0,
5669,0,5670,2,
5668,5670,5671,0,
5671,0,5672,2,
5659,5672,5673,1,
5412,191,5674,1,
5674,5416,5675,1,
5673,5675,5676,1,
5676,0,5677,2,
258,0,5678,2,
42,5678,5679,0,
5469,5463,5680,1,
5680,0,5681,2,
5681,5465,5682,1,
5682,0,5683,2,
5679,5683,5684,0,
5684,0,5685,2,
5661,147,5686,1,
5686,5665,5687,1,
5687,0,5688,2,
5688,5679,5689,0,
5689,0,5690,2,
5685,5690,5691,0,
5688,5683,5692,0,
5692,0,5693,2,
5691,5693,5694,0,
5694,0,5695,2,
5677,5695,5696,0,
5696,0,5697,2,
259,0,5698,2,
42,5698,5699,0,
223,0,5700,2,
43,5700,5701,0,
5699,5701,5702,0,
5702,0,5703,2,
219,0,5704,2,
46,5704,5705,0,
5701,5705,5706,0,
5706,0,5707,2,
5703,5707,5708,0,
5705,5699,5709,0,
5709,0,5710,2,
5708,5710,5711,0,
5711,0,5712,2,
191,0,5713,2,
53,5713,5714,0,
7,5714,5715,0,
5715,0,5716,2,
192,0,5717,2,
54,5717,5718,0,
7,5718,5719,0,
5719,0,5720,2,
5716,5720,5721,0,
5714,5718,5722,0,
5722,0,5723,2,
5721,5723,5724,0,
5724,0,5725,2,
5712,5725,5726,0,
5726,0,5727,2,
222,0,5728,2,
44,5728,5729,0,
317,0,5730,2,
45,5730,5731,0,
5729,5731,5732,0,
5732,0,5733,2,
194,0,5734,2,
52,5734,5735,0,
5731,5735,5736,0,
5736,0,5737,2,
5733,5737,5738,0,
5735,5729,5739,0,
5739,0,5740,2,
5738,5740,5741,0,
5741,5724,5742,1,
5741,5724,5743,0,
5742,5743,5744,1,
5727,5744,5745,0,
5741,0,5746,2,
5712,5746,5747,0,
5747,0,5748,2,
5745,5748,5749,0,
5749,0,5750,2,
5695,5750,5751,0,
5751,0,5752,2,
5697,5752,5753,0,
5749,0,5754,2,
5677,5754,5755,0,
5755,0,5756,2,
5753,5756,5757,0,
5757,0,5758,2,
5652,0,5759,2,
5758,5759,5760,0,
5760,0,5761,2,
5655,5761,5762,0,
5758,5620,5763,0,
5763,0,5764,2,
5762,5764,5765,0,
5765,0,5766,2,
5618,5766,5767,0,
5767,0,5768,2,
5365,5386,5769,1,
5769,5369,5770,1,
5571,5562,5771,1,
5771,0,5772,2,
5772,5566,5773,1,
5773,0,5774,2,
5774,0,5775,2,
5770,5775,5776,0,
5776,0,5777,2,
5675,0,5778,2,
5778,5659,5779,0,
5779,0,5780,2,
5659,5672,5781,0,
5781,0,5782,2,
5780,5782,5783,0,
5778,5672,5784,0,
5784,0,5785,2,
5783,5785,5786,0,
5786,0,5787,2,
5787,5770,5788,0,
5788,0,5789,2,
5777,5789,5790,0,
5774,0,5791,2,
5787,5791,5792,0,
5792,0,5793,2,
5790,5793,5794,0,
5794,0,5795,2,
5618,5795,5796,0,
5796,0,5797,2,
5768,5797,5798,0,
5794,5765,5799,1,
5794,5765,5800,0,
5799,5800,5801,1,
5798,5801,5802,0,
5802,5612,5803,1,
5802,5612,5804,0,
5803,5804,5805,1,
5615,5805,5806,0,
5802,5610,5807,1,
5802,5610,5808,0,
5807,5808,5809,1,
5806,5809,5810,0,
5810,0,5811,2,
5794,5765,5812,1,
5812,0,5813,2,
5813,5618,5814,1,
5814,0,5815,2,
5577,5545,5816,1,
5816,0,5817,2,
5817,5458,5818,1,
5818,0,5819,2,
5815,5819,5820,0,
5820,0,5821,2,
5770,5787,5822,1,
5822,0,5823,2,
5823,5774,5824,1,
5824,0,5825,2,
5825,0,5826,2,
5714,183,5827,1,
5827,5718,5828,1,
5828,0,5829,2,
363,0,5830,2,
12,5830,5831,0,
242,0,5832,2,
10,5832,5833,0,
5831,5833,5834,0,
5834,0,5835,2,
195,0,5836,2,
50,5836,5837,0,
5833,5837,5838,0,
5838,0,5839,2,
5835,5839,5840,0,
5837,5831,5841,0,
5841,0,5842,2,
5840,5842,5843,0,
5843,0,5844,2,
5829,5844,5845,0,
5845,0,5846,2,
200,0,5847,2,
50,5847,5848,0,
204,0,5849,2,
47,5849,5850,0,
5848,5850,5851,1,
5851,0,5852,2,
242,0,5853,2,
11,5853,5854,0,
5852,5854,5855,1,
5855,5843,5856,1,
5855,5843,5857,0,
5856,5857,5858,1,
5846,5858,5859,0,
5855,0,5860,2,
5829,5860,5861,0,
5861,0,5862,2,
5859,5862,5863,0,
5863,0,5864,2,
5735,5729,5865,1,
5865,0,5866,2,
5866,5731,5867,1,
5867,0,5868,2,
191,0,5869,2,
52,5869,5870,0,
38,5870,5871,0,
5871,0,5872,2,
661,0,5873,2,
39,5873,5874,0,
38,5874,5875,0,
5875,0,5876,2,
5872,5876,5877,0,
5870,5874,5878,0,
5878,0,5879,2,
5877,5879,5880,0,
5880,0,5881,2,
5868,5881,5882,0,
5882,0,5883,2,
203,0,5884,2,
47,5884,5885,0,
222,0,5886,2,
43,5886,5887,0,
5885,5887,5888,0,
5888,0,5889,2,
149,0,5890,2,
19,5890,5891,0,
5887,5891,5892,0,
5892,0,5893,2,
5889,5893,5894,0,
5891,5885,5895,0,
5895,0,5896,2,
5894,5896,5897,0,
5897,0,5898,2,
5898,5868,5899,0,
5899,0,5900,2,
5883,5900,5901,0,
5880,0,5902,2,
5898,5902,5903,0,
5903,0,5904,2,
5901,5904,5905,0,
5905,0,5906,2,
5864,5906,5907,0,
5907,0,5908,2,
5499,5493,5909,1,
5909,0,5910,2,
5910,5495,5911,1,
5911,0,5912,2,
5633,5627,5913,1,
5913,0,5914,2,
5914,5629,5915,1,
5915,0,5916,2,
5912,5916,5917,1,
5917,0,5918,2,
5478,192,5919,1,
5919,5482,5920,1,
5920,0,5921,2,
5918,5921,5922,1,
5922,0,5923,2,
5905,0,5924,2,
5923,5924,5925,0,
5925,0,5926,2,
5908,5926,5927,0,
5864,5923,5928,0,
5928,0,5929,2,
5927,5929,5930,0,
5930,0,5931,2,
5711,5724,5932,1,
5932,0,5933,2,
5933,5741,5934,1,
5934,0,5935,2,
5935,0,5936,2,
316,0,5937,2,
49,5937,5938,0,
39,5938,5939,0,
5939,0,5940,2,
203,0,5941,2,
48,5941,5942,0,
39,5942,5943,0,
5943,0,5944,2,
5940,5944,5945,0,
5938,5942,5946,0,
5946,0,5947,2,
5945,5947,5948,0,
5948,0,5949,2,
5936,5949,5950,0,
5950,0,5951,2,
5850,5854,5952,0,
5952,0,5953,2,
5854,5848,5954,0,
5954,0,5955,2,
5953,5955,5956,0,
5850,5848,5957,0,
5957,0,5958,2,
5956,5958,5959,0,
5959,0,5960,2,
5949,5960,5961,0,
5961,0,5962,2,
5951,5962,5963,0,
5959,0,5964,2,
5936,5964,5965,0,
5965,0,5966,2,
5963,5966,5967,0,
5967,0,5968,2,
5931,5968,5969,0,
5969,0,5970,2,
5687,5679,5971,1,
5971,5683,5972,1,
5972,0,5973,2,
5705,5699,5974,1,
5974,0,5975,2,
5975,5701,5976,1,
5976,0,5977,2,
158,0,5978,2,
15,5978,5979,0,
317,0,5980,2,
44,5980,5981,0,
5979,5981,5982,0,
5982,0,5983,2,
219,0,5984,2,
45,5984,5985,0,
5981,5985,5986,0,
5986,0,5987,2,
5983,5987,5988,0,
5985,5979,5989,0,
5989,0,5990,2,
5988,5990,5991,0,
5991,0,5992,2,
5977,5992,5993,0,
5993,0,5994,2,
192,0,5995,2,
53,5995,5996,0,
6,5996,5997,0,
5997,0,5998,2,
183,0,5999,2,
54,5999,6000,0,
6,6000,6001,0,
6001,0,6002,2,
5998,6002,6003,0,
5996,6000,6004,0,
6004,0,6005,2,
6003,6005,6006,0,
6006,0,6007,2,
6007,5977,6008,0,
6008,0,6009,2,
5994,6009,6010,0,
5991,0,6011,2,
6007,6011,6012,0,
6012,0,6013,2,
6010,6013,6014,0,
6014,0,6015,2,
5973,6015,6016,0,
6016,0,6017,2,
146,0,6018,2,
21,6018,6019,0,
5938,138,6020,1,
6020,5942,6021,1,
6021,0,6022,2,
6019,6022,6023,0,
6023,0,6024,2,
661,0,6025,2,
40,6025,6026,0,
6026,6019,6027,0,
6027,0,6028,2,
6024,6028,6029,0,
6022,6026,6030,0,
6030,0,6031,2,
6029,6031,6032,0,
6032,0,6033,2,
6033,5973,6034,0,
6034,0,6035,2,
6017,6035,6036,0,
6014,0,6037,2,
6033,6037,6038,0,
6038,0,6039,2,
6036,6039,6040,0,
6040,5967,6041,1,
6040,5967,6042,0,
6041,6042,6043,1,
5970,6043,6044,0,
6040,0,6045,2,
5931,6045,6046,0,
6046,0,6047,2,
6044,6047,6048,0,
6048,0,6049,2,
5826,6049,6050,0,
6050,0,6051,2,
5921,5916,6052,0,
6052,0,6053,2,
5912,5916,6054,0,
6054,0,6055,2,
6053,6055,6056,0,
5921,5912,6057,0,
6057,0,6058,2,
6056,6058,6059,0,
6059,0,6060,2,
5749,5694,6061,1,
6061,0,6062,2,
6062,5676,6063,1,
6060,6063,6064,0,
6064,0,6065,2,
5645,5639,6066,1,
6066,5624,6067,1,
6060,6067,6068,0,
6068,0,6069,2,
6065,6069,6070,0,
6063,6067,6071,0,
6071,0,6072,2,
6070,6072,6073,0,
6073,0,6074,2,
5826,6074,6075,0,
6075,0,6076,2,
6051,6076,6077,0,
6048,0,6078,2,
6074,6078,6079,0,
6079,0,6080,2,
6077,6080,6081,0,
6081,0,6082,2,
5819,6082,6083,0,
6083,0,6084,2,
5821,6084,6085,0,
6081,0,6086,2,
5815,6086,6087,0,
6087,0,6088,2,
6085,6088,6089,0,
5757,5652,6090,1,
6090,0,6091,2,
6091,5620,6092,1,
6092,0,6093,2,
6073,6048,6094,1,
6094,0,6095,2,
6095,5825,6096,1,
6096,0,6097,2,
6097,0,6098,2,
6093,6098,6099,0,
6099,0,6100,2,
6067,6059,6101,1,
6101,0,6102,2,
6102,6063,6103,1,
6019,6026,6104,1,
6104,0,6105,2,
6105,6022,6106,1,
6106,0,6107,2,
223,0,6108,2,
41,6108,6109,0,
222,0,6110,2,
42,6110,6111,0,
6109,6111,6112,0,
6112,0,6113,2,
203,0,6114,2,
46,6114,6115,0,
6111,6115,6116,0,
6116,0,6117,2,
6113,6117,6118,0,
6115,6109,6119,0,
6119,0,6120,2,
6118,6120,6121,0,
6121,0,6122,2,
183,0,6123,2,
53,6123,6124,0,
5,6124,6125,0,
6125,0,6126,2,
182,0,6127,2,
54,6127,6128,0,
5,6128,6129,0,
6129,0,6130,2,
6126,6130,6131,0,
6124,6128,6132,0,
6132,0,6133,2,
6131,6133,6134,0,
6134,0,6135,2,
6122,6135,6136,0,
6136,0,6137,2,
362,0,6138,2,
15,6138,6139,0,
155,0,6140,2,
16,6140,6141,0,
6139,6141,6142,0,
6142,0,6143,2,
150,0,6144,2,
17,6144,6145,0,
6141,6145,6146,0,
6146,0,6147,2,
6143,6147,6148,0,
6145,6139,6149,0,
6149,0,6150,2,
6148,6150,6151,0,
6151,6134,6152,1,
6151,6134,6153,0,
6152,6153,6154,1,
6137,6154,6155,0,
6151,0,6156,2,
6122,6156,6157,0,
6157,0,6158,2,
6155,6158,6159,0,
6159,0,6160,2,
6107,6160,6161,0,
6161,0,6162,2,
5837,5831,6163,1,
6163,0,6164,2,
6164,5833,6165,1,
6165,0,6166,2,
5891,5885,6167,1,
6167,0,6168,2,
6168,5887,6169,1,
6169,0,6170,2,
6166,6170,6171,0,
6171,0,6172,2,
5870,137,6173,1,
6173,5874,6174,1,
6174,0,6175,2,
6166,6175,6176,0,
6176,0,6177,2,
6172,6177,6178,0,
6170,6175,6179,0,
6179,0,6180,2,
6178,6180,6181,0,
6181,0,6182,2,
6182,6107,6183,0,
6183,0,6184,2,
6162,6184,6185,0,
6159,0,6186,2,
6182,6186,6187,0,
6187,0,6188,2,
6185,6188,6189,0,
6189,0,6190,2,
146,0,6191,2,
20,6191,6192,0,
21,40,6193,0,
6192,6193,6194,1,
6194,0,6195,2,
238,0,6196,2,
13,6196,6197,0,
6195,6197,6198,1,
6198,0,6199,2,
5985,5979,6200,1,
6200,0,6201,2,
6201,5981,6202,1,
6202,0,6203,2,
6199,6203,6204,0,
6204,0,6205,2,
138,0,6206,2,
21,6206,6207,0,
661,0,6208,2,
38,6208,6209,0,
6207,6209,6210,0,
6210,0,6211,2,
37,6209,6212,0,
6212,0,6213,2,
6211,6213,6214,0,
37,6207,6215,0,
6215,0,6216,2,
6214,6216,6217,0,
6217,0,6218,2,
6203,6218,6219,0,
6219,0,6220,2,
6205,6220,6221,0,
6217,0,6222,2,
6199,6222,6223,0,
6223,0,6224,2,
6221,6224,6225,0,
6225,0,6226,2,
159,0,6227,2,
13,6227,6228,0,
363,0,6229,2,
11,6229,6230,0,
6228,6230,6231,0,
6231,0,6232,2,
238,0,6233,2,
12,6233,6234,0,
6230,6234,6235,0,
6235,0,6236,2,
6232,6236,6237,0,
6234,6228,6238,0,
6238,0,6239,2,
6237,6239,6240,0,
6240,0,6241,2,
241,0,6242,2,
10,6242,6243,0,
287,0,6244,2,
8,6244,6245,0,
6243,6245,6246,0,
6246,0,6247,2,
191,0,6248,2,
51,6248,6249,0,
6245,6249,6250,0,
6250,0,6251,2,
6247,6251,6252,0,
6249,6243,6253,0,
6253,0,6254,2,
6252,6254,6255,0,
6255,0,6256,2,
6241,6256,6257,0,
6257,0,6258,2,
5996,182,6259,1,
6259,6000,6260,1,
6260,0,6261,2,
6255,0,6262,2,
6261,6262,6263,0,
6263,0,6264,2,
6258,6264,6265,0,
6241,6261,6266,0,
6266,0,6267,2,
6265,6267,6268,0,
6268,0,6269,2,
6226,6269,6270,0,
6270,0,6271,2,
5855,5843,6272,1,
6272,5829,6273,1,
6273,6226,6274,0,
6274,0,6275,2,
6271,6275,6276,0,
6268,0,6277,2,
6273,6277,6278,0,
6278,0,6279,2,
6276,6279,6280,0,
6280,0,6281,2,
6190,6281,6282,0,
6282,0,6283,2,
6006,5991,6284,1,
6284,0,6285,2,
6285,5977,6286,1,
6286,0,6287,2,
6197,6193,6288,0,
6288,0,6289,2,
6197,6192,6290,0,
6290,0,6291,2,
6289,6291,6292,0,
6193,6192,6293,0,
6293,0,6294,2,
6292,6294,6295,0,
6295,0,6296,2,
6287,6296,6297,0,
6297,0,6298,2,
5897,5880,6299,1,
6299,0,6300,2,
6300,5868,6301,1,
6301,0,6302,2,
6295,0,6303,2,
6302,6303,6304,0,
6304,0,6305,2,
6298,6305,6306,0,
6287,6302,6307,0,
6307,0,6308,2,
6306,6308,6309,0,
6309,6280,6310,1,
6309,6280,6311,0,
6310,6311,6312,1,
6283,6312,6313,0,
6309,0,6314,2,
6190,6314,6315,0,
6315,0,6316,2,
6313,6316,6317,0,
6317,0,6318,2,
6103,6318,6319,0,
6319,0,6320,2,
6032,6014,6321,1,
6321,0,6322,2,
6322,5973,6323,1,
6323,0,6324,2,
5864,5905,6325,1,
6325,5923,6326,1,
6326,0,6327,2,
6324,6327,6328,0,
6328,0,6329,2,
5959,5948,6330,1,
6330,0,6331,2,
6331,5935,6332,1,
6324,6332,6333,0,
6333,0,6334,2,
6329,6334,6335,0,
6327,6332,6336,0,
6336,0,6337,2,
6335,6337,6338,0,
6338,0,6339,2,
6103,6339,6340,0,
6340,0,6341,2,
6320,6341,6342,0,
6338,0,6343,2,
6318,6343,6344,0,
6344,0,6345,2,
6342,6345,6346,0,
6346,0,6347,2,
6347,6093,6348,0,
6348,0,6349,2,
6100,6349,6350,0,
6097,0,6351,2,
6347,6351,6352,0,
6352,0,6353,2,
6350,6353,6354,0,
6354,0,6355,2,
5930,5967,6356,1,
6356,0,6357,2,
6357,6040,6358,1,
6338,6318,6359,1,
6359,6103,6360,1,
6360,0,6361,2,
6358,6361,6362,0,
6362,0,6363,2,
6189,6280,6364,1,
6364,0,6365,2,
6365,6309,6366,1,
6366,0,6367,2,
6367,0,6368,2,
6332,6324,6369,1,
6369,6327,6370,1,
6368,6370,6371,0,
6371,0,6372,2,
6181,6159,6373,1,
6373,0,6374,2,
6374,6107,6375,1,
6375,0,6376,2,
6268,6226,6377,1,
6377,6273,6378,1,
6378,0,6379,2,
6376,6379,6380,0,
6380,0,6381,2,
6302,6295,6382,1,
6382,0,6383,2,
6383,6286,6384,1,
6384,0,6385,2,
6385,6376,6386,0,
6386,0,6387,2,
6381,6387,6388,0,
6378,0,6389,2,
6385,6389,6390,0,
6390,0,6391,2,
6388,6391,6392,0,
6392,0,6393,2,
6393,6370,6394,0,
6394,0,6395,2,
6372,6395,6396,0,
6368,6393,6397,0,
6397,0,6398,2,
6396,6398,6399,0,
6399,0,6400,2,
6400,6358,6401,0,
6401,0,6402,2,
6363,6402,6403,0,
6360,0,6404,2,
6400,6404,6405,0,
6405,0,6406,2,
6403,6406,6407,0,
6407,0,6408,2,
6358,6400,6409,1,
6409,0,6410,2,
6410,6360,6411,1,
6234,6228,6412,1,
6412,0,6413,2,
6413,6230,6414,1,
6414,0,6415,2,
363,0,6416,2,
10,6416,6417,0,
242,0,6418,2,
8,6418,6419,0,
6417,6419,6420,0,
6420,0,6421,2,
191,0,6422,2,
50,6422,6423,0,
6419,6423,6424,0,
6424,0,6425,2,
6421,6425,6426,0,
6423,6417,6427,0,
6427,0,6428,2,
6426,6428,6429,0,
6415,6429,6430,1,
6430,0,6431,2,
6124,315,6432,1,
6432,6128,6433,1,
6433,0,6434,2,
6431,6434,6435,1,
6435,0,6436,2,
6436,0,6437,2,
138,0,6438,2,
20,6438,6439,0,
6439,134,6440,1,
19,40,6441,0,
6440,6441,6442,1,
6442,0,6443,2,
183,0,6444,2,
52,6444,6445,0,
317,0,6446,2,
42,6446,6447,0,
6445,6447,6448,1,
6448,0,6449,2,
53,6,6450,0,
6449,6450,6451,1,
6451,0,6452,2,
6443,6452,6453,0,
6453,0,6454,2,
146,0,6455,2,
18,6455,6456,0,
155,0,6457,2,
15,6457,6458,0,
6456,6458,6459,1,
6459,0,6460,2,
43,16,6461,0,
6460,6461,6462,1,
6462,0,6463,2,
6443,6463,6464,0,
6464,0,6465,2,
6454,6465,6466,0,
6452,6463,6467,0,
6467,0,6468,2,
6466,6468,6469,0,
6469,0,6470,2,
6437,6470,6471,0,
6471,0,6472,2,
223,0,6473,2,
39,6473,6474,0,
35,6474,6475,0,
6475,0,6476,2,
316,0,6477,2,
45,6477,6478,0,
6478,6474,6479,0,
6479,0,6480,2,
6476,6480,6481,0,
35,6478,6482,0,
6482,0,6483,2,
6481,6483,6484,0,
6484,0,6485,2,
134,0,6486,2,
22,6486,6487,0,
258,0,6488,2,
37,6488,6489,0,
6487,6489,6490,0,
6490,0,6491,2,
137,0,6492,2,
20,6492,6493,0,
6489,6493,6494,0,
6494,0,6495,2,
6491,6495,6496,0,
6493,6487,6497,0,
6497,0,6498,2,
6496,6498,6499,0,
6499,0,6500,2,
6485,6500,6501,0,
6501,0,6502,2,
200,0,6503,2,
46,6503,6504,0,
363,0,6505,2,
9,6505,6506,0,
6504,6506,6507,0,
6507,0,6508,2,
238,0,6509,2,
10,6509,6510,0,
6506,6510,6511,0,
6511,0,6512,2,
6508,6512,6513,0,
6510,6504,6514,0,
6514,0,6515,2,
6513,6515,6516,0,
6516,6499,6517,1,
6516,6499,6518,0,
6517,6518,6519,1,
6502,6519,6520,0,
6516,0,6521,2,
6485,6521,6522,0,
6522,0,6523,2,
6520,6523,6524,0,
6524,0,6525,2,
6470,6525,6526,0,
6526,0,6527,2,
6472,6527,6528,0,
6524,0,6529,2,
6437,6529,6530,0,
6530,0,6531,2,
6528,6531,6532,0,
6532,0,6533,2,
159,0,6534,2,
12,6534,6535,0,
158,0,6536,2,
13,6536,6537,0,
6535,6537,6538,1,
6538,0,6539,2,
195,0,6540,2,
48,6540,6541,0,
6539,6541,6542,1,
6542,0,6543,2,
241,0,6544,2,
8,6544,6545,0,
195,0,6546,2,
47,6546,6547,0,
6545,6547,6548,0,
6548,0,6549,2,
183,0,6550,2,
51,6550,6551,0,
6547,6551,6552,0,
6552,0,6553,2,
6549,6553,6554,0,
6551,6545,6555,0,
6555,0,6556,2,
6554,6556,6557,0,
6557,0,6558,2,
6543,6558,6559,0,
6559,0,6560,2,
315,0,6561,2,
54,6561,6562,0,
6562,179,6563,1,
362,0,6564,2,
14,6564,6565,0,
6563,6565,6566,1,
6566,0,6567,2,
6557,0,6568,2,
6567,6568,6569,0,
6569,0,6570,2,
6560,6570,6571,0,
6567,6543,6572,0,
6572,0,6573,2,
6571,6573,6574,0,
6574,0,6575,2,
6458,6461,6576,0,
6576,0,6577,2,
6461,6456,6578,0,
6578,0,6579,2,
6577,6579,6580,0,
6456,6458,6581,0,
6581,0,6582,2,
6580,6582,6583,0,
6583,0,6584,2,
36,6441,6585,0,
6585,0,6586,2,
6439,6441,6587,0,
6587,0,6588,2,
6586,6588,6589,0,
36,6439,6590,0,
6590,0,6591,2,
6589,6591,6592,0,
6584,6592,6593,1,
6145,6139,6594,1,
6594,0,6595,2,
6595,6141,6596,1,
6596,0,6597,2,
6593,6597,6598,1,
6537,6541,6599,0,
6599,0,6600,2,
6541,6535,6601,0,
6601,0,6602,2,
6600,6602,6603,0,
6535,6537,6604,0,
6604,0,6605,2,
6603,6605,6606,0,
6598,6606,6607,1,
6447,6450,6608,0,
6608,0,6609,2,
6450,6445,6610,0,
6610,0,6611,2,
6609,6611,6612,0,
6445,6447,6613,0,
6613,0,6614,2,
6612,6614,6615,0,
6615,0,6616,2,
4,6562,6617,0,
6617,0,6618,2,
4,6565,6619,0,
6619,0,6620,2,
6618,6620,6621,0,
6562,6565,6622,0,
6622,0,6623,2,
6621,6623,6624,0,
6616,6624,6625,1,
6115,6109,6626,1,
6626,0,6627,2,
6627,6111,6628,1,
6628,0,6629,2,
6625,6629,6630,1,
6630,0,6631,2,
6607,6631,6632,1,
6632,0,6633,2,
6633,0,6634,2,
6575,6634,6635,0,
6635,0,6636,2,
222,0,6637,2,
40,6637,6638,0,
317,0,6639,2,
41,6639,6640,0,
6638,6640,6641,0,
6641,0,6642,2,
203,0,6643,2,
44,6643,6644,0,
6640,6644,6645,0,
6645,0,6646,2,
6642,6646,6647,0,
6644,6638,6648,0,
6648,0,6649,2,
6647,6649,6650,0,
6650,0,6651,2,
315,0,6652,2,
53,6652,6653,0,
3,6653,6654,0,
6654,0,6655,2,
179,0,6656,2,
54,6656,6657,0,
3,6657,6658,0,
6658,0,6659,2,
6655,6659,6660,0,
6653,6657,6661,0,
6661,0,6662,2,
6660,6662,6663,0,
6663,0,6664,2,
6651,6664,6665,0,
6665,0,6666,2,
219,0,6667,2,
42,6667,6668,0,
150,0,6669,2,
15,6669,6670,0,
6668,6670,6671,0,
6671,0,6672,2,
287,0,6673,2,
6,6673,6674,0,
6670,6674,6675,0,
6675,0,6676,2,
6672,6676,6677,0,
6674,6668,6678,0,
6678,0,6679,2,
6677,6679,6680,0,
6680,6663,6681,1,
6680,6663,6682,0,
6681,6682,6683,1,
6666,6683,6684,0,
6680,0,6685,2,
6651,6685,6686,0,
6686,0,6687,2,
6684,6687,6688,0,
6688,0,6689,2,
137,0,6690,2,
21,6690,6691,0,
6423,6417,6692,1,
6692,0,6693,2,
6693,6419,6694,1,
6694,0,6695,2,
6691,6695,6696,0,
6696,0,6697,2,
361,0,6698,2,
22,6698,6699,0,
6699,6691,6700,0,
6700,0,6701,2,
6697,6701,6702,0,
6695,6699,6703,0,
6703,0,6704,2,
6702,6704,6705,0,
6689,6705,6706,1,
6249,6243,6707,1,
6707,0,6708,2,
6708,6245,6709,1,
6709,0,6710,2,
20,40,6711,0,
6710,6711,6712,1,
6712,0,6713,2,
6207,361,6714,1,
6714,6209,6715,1,
6715,0,6716,2,
6713,6716,6717,1,
6717,0,6718,2,
6706,6718,6719,1,
6719,0,6720,2,
6575,6720,6721,0,
6721,0,6722,2,
6636,6722,6723,0,
6633,0,6724,2,
6720,6724,6725,0,
6725,0,6726,2,
6723,6726,6727,0,
6727,0,6728,2,
6533,6728,6729,0,
6729,0,6730,2,
6241,6255,6731,1,
6731,6261,6732,1,
6732,0,6733,2,
6429,0,6734,2,
6434,6734,6735,0,
6735,0,6736,2,
6429,0,6737,2,
6415,6737,6738,0,
6738,0,6739,2,
6736,6739,6740,0,
6434,6415,6741,0,
6741,0,6742,2,
6740,6742,6743,0,
6733,6743,6744,1,
6744,0,6745,2,
6203,6217,6746,1,
6746,0,6747,2,
6747,6199,6748,1,
6748,0,6749,2,
6121,6134,6750,1,
6750,0,6751,2,
6751,6151,6752,1,
6749,6752,6753,1,
6175,6166,6754,1,
6754,0,6755,2,
6755,6170,6756,1,
6753,6756,6757,1,
6757,0,6758,2,
6745,6758,6759,1,
6759,0,6760,2,
6760,6533,6761,0,
6761,0,6762,2,
6730,6762,6763,0,
6727,0,6764,2,
6760,6764,6765,0,
6765,0,6766,2,
6763,6766,6767,0,
6767,0,6768,2,
6592,0,6769,2,
6597,6769,6770,0,
6770,0,6771,2,
6597,6584,6772,0,
6772,0,6773,2,
6771,6773,6774,0,
6592,0,6775,2,
6584,6775,6776,0,
6776,0,6777,2,
6774,6777,6778,0,
6778,0,6779,2,
6716,6711,6780,0,
6780,0,6781,2,
6710,6711,6782,0,
6782,0,6783,2,
6781,6783,6784,0,
6716,6710,6785,0,
6785,0,6786,2,
6784,6786,6787,0,
6779,6787,6788,1,
6624,0,6789,2,
6616,6789,6790,0,
6790,0,6791,2,
6624,0,6792,2,
6629,6792,6793,0,
6793,0,6794,2,
6791,6794,6795,0,
6616,6629,6796,0,
6796,0,6797,2,
6795,6797,6798,0,
6798,0,6799,2,
6788,6799,6800,1,
6800,0,6801,2,
6606,0,6802,2,
6631,6802,6803,0,
6803,0,6804,2,
6598,6606,6805,1,
6598,6606,6806,0,
6805,6806,6807,1,
6804,6807,6808,0,
6598,0,6809,2,
6631,6809,6810,0,
6810,0,6811,2,
6808,6811,6812,0,
6812,0,6813,2,
6801,6813,6814,0,
6814,0,6815,2,
6705,0,6816,2,
6689,6816,6817,0,
6817,0,6818,2,
6705,0,6819,2,
6718,6819,6820,0,
6820,0,6821,2,
6818,6821,6822,0,
6718,6689,6823,0,
6823,0,6824,2,
6822,6824,6825,0,
6825,0,6826,2,
6813,6826,6827,0,
6827,0,6828,2,
6815,6828,6829,0,
6825,0,6830,2,
6801,6830,6831,0,
6831,0,6832,2,
6829,6832,6833,0,
6833,0,6834,2,
6768,6834,6835,1,
6835,0,6836,2,
6384,6376,6837,1,
6837,0,6838,2,
6838,6378,6839,1,
6839,0,6840,2,
6836,6840,6841,1,
6841,0,6842,2,
6758,0,6843,2,
6733,6843,6844,0,
6844,0,6845,2,
6743,0,6846,2,
6733,6846,6847,0,
6847,0,6848,2,
6845,6848,6849,0,
6743,6758,6850,1,
6743,6758,6851,0,
6850,6851,6852,1,
6849,6852,6853,0,
6853,0,6854,2,
6756,6749,6855,1,
6756,6749,6856,0,
6855,6856,6857,1,
6749,0,6858,2,
6752,6858,6859,0,
6859,0,6860,2,
6857,6860,6861,0,
6756,0,6862,2,
6752,6862,6863,0,
6863,0,6864,2,
6861,6864,6865,0,
6854,6865,6866,1,
6787,0,6867,2,
6779,6867,6868,0,
6868,0,6869,2,
6787,0,6870,2,
6799,6870,6871,0,
6871,0,6872,2,
6869,6872,6873,0,
6779,6799,6874,0,
6874,0,6875,2,
6873,6875,6876,0,
6866,6876,6877,1,
6842,6877,6878,0,
6878,0,6879,2,
6484,6499,6880,1,
6880,0,6881,2,
6881,6516,6882,1,
6650,6663,6883,1,
6883,0,6884,2,
6884,6680,6885,1,
6882,6885,6886,0,
6886,0,6887,2,
6463,6443,6888,1,
6888,0,6889,2,
6889,6452,6890,1,
6890,0,6891,2,
6882,6891,6892,0,
6892,0,6893,2,
6887,6893,6894,0,
6891,6885,6895,0,
6895,0,6896,2,
6894,6896,6897,0,
6897,0,6898,2,
6524,6470,6899,1,
6899,6436,6900,1,
6898,6900,6901,0,
6901,0,6902,2,
222,0,6903,2,
39,6903,6904,0,
317,0,6905,2,
40,6905,6906,0,
6904,6906,6907,0,
6907,0,6908,2,
149,0,6909,2,
15,6909,6910,0,
6906,6910,6911,0,
6911,0,6912,2,
6908,6912,6913,0,
6910,6904,6914,0,
6914,0,6915,2,
6913,6915,6916,0,
6916,0,6917,2,
155,0,6918,2,
13,6918,6919,0,
2,6919,6920,0,
6920,0,6921,2,
362,0,6922,2,
12,6922,6923,0,
6923,6919,6924,0,
6924,0,6925,2,
6921,6925,6926,0,
2,6923,6927,0,
6927,0,6928,2,
6926,6928,6929,0,
6929,0,6930,2,
6917,6930,6931,0,
6931,0,6932,2,
219,0,6933,2,
41,6933,6934,0,
174,0,6935,2,
54,6935,6936,0,
6934,6936,6937,0,
6937,0,6938,2,
179,0,6939,2,
53,6939,6940,0,
6936,6940,6941,0,
6941,0,6942,2,
6938,6942,6943,0,
6940,6934,6944,0,
6944,0,6945,2,
6943,6945,6946,0,
6946,6929,6947,1,
6946,6929,6948,0,
6947,6948,6949,1,
6932,6949,6950,0,
6946,0,6951,2,
6917,6951,6952,0,
6952,0,6953,2,
6950,6953,6954,0,
6954,0,6955,2,
6510,6504,6956,1,
6956,0,6957,2,
6957,6506,6958,1,
6958,0,6959,2,
6478,129,6960,1,
6960,6474,6961,1,
6961,0,6962,2,
6959,6962,6963,0,
6963,0,6964,2,
6551,6545,6965,1,
6965,0,6966,2,
6966,6547,6967,1,
6967,0,6968,2,
6959,6968,6969,0,
6969,0,6970,2,
6964,6970,6971,0,
6962,6968,6972,0,
6972,0,6973,2,
6971,6973,6974,0,
6974,0,6975,2,
6955,6975,6976,0,
6976,0,6977,2,
6691,6699,6978,1,
6978,0,6979,2,
6979,6695,6980,1,
6980,0,6981,2,
6981,6975,6982,0,
6982,0,6983,2,
6977,6983,6984,0,
6981,6955,6985,0,
6985,0,6986,2,
6984,6986,6987,0,
6987,0,6988,2,
6898,6988,6989,0,
6989,0,6990,2,
6902,6990,6991,0,
6987,0,6992,2,
6900,6992,6993,0,
6993,0,6994,2,
6991,6994,6995,0,
6493,6487,6996,1,
6996,0,6997,2,
6997,6489,6998,1,
6998,0,6999,2,
259,0,7000,2,
37,7000,7001,0,
238,0,7002,2,
9,7002,7003,0,
7001,7003,7004,0,
7004,0,7005,2,
159,0,7006,2,
10,7006,7007,0,
7003,7007,7008,0,
7008,0,7009,2,
7005,7009,7010,0,
7007,7001,7011,0,
7011,0,7012,2,
7010,7012,7013,0,
7013,0,7014,2,
6999,7014,7015,0,
7015,0,7016,2,
241,0,7017,2,
7,7017,7018,0,
287,0,7019,2,
5,7019,7020,0,
7018,7020,7021,0,
7021,0,7022,2,
242,0,7023,2,
6,7023,7024,0,
7020,7024,7025,0,
7025,0,7026,2,
7022,7026,7027,0,
7024,7018,7028,0,
7028,0,7029,2,
7027,7029,7030,0,
7030,0,7031,2,
7013,0,7032,2,
7031,7032,7033,0,
7033,0,7034,2,
7016,7034,7035,0,
7031,6999,7036,0,
7036,0,7037,2,
7035,7037,7038,0,
7038,0,7039,2,
6674,6668,7040,1,
7040,0,7041,2,
7041,6670,7042,1,
7042,0,7043,2,
195,0,7044,2,
46,7044,7045,0,
150,0,7046,2,
14,7046,7047,0,
7045,7047,7048,0,
7048,0,7049,2,
137,0,7050,2,
19,7050,7051,0,
7047,7051,7052,0,
7052,0,7053,2,
7049,7053,7054,0,
7051,7045,7055,0,
7055,0,7056,2,
7054,7056,7057,0,
7057,0,7058,2,
7043,7058,7059,0,
7059,0,7060,2,
6644,6638,7061,1,
7061,0,7062,2,
7062,6640,7063,1,
7063,0,7064,2,
7057,0,7065,2,
7064,7065,7066,0,
7066,0,7067,2,
7060,7067,7068,0,
7064,7043,7069,0,
7069,0,7070,2,
7068,7070,7071,0,
7071,0,7072,2,
7039,7072,7073,1,
7073,0,7074,2,
6566,6557,7075,1,
7075,6543,7076,1,
7076,0,7077,2,
7074,7077,7078,1,
7078,0,7079,2,
7079,0,7080,2,
6955,6975,7081,1,
7081,0,7082,2,
7082,6981,7083,1,
7083,0,7084,2,
7080,7084,7085,0,
7085,0,7086,2,
6882,6891,7087,1,
7087,6885,7088,1,
7088,0,7089,2,
7089,0,7090,2,
7084,7090,7091,0,
7091,0,7092,2,
7086,7092,7093,0,
7089,0,7094,2,
7080,7094,7095,0,
7095,0,7096,2,
7093,7096,7097,0,
7097,0,7098,2,
7039,7072,7099,0,
7099,0,7100,2,
7077,0,7101,2,
7072,7101,7102,0,
7102,0,7103,2,
7100,7103,7104,0,
7077,0,7105,2,
7039,7105,7106,0,
7106,0,7107,2,
7104,7107,7108,0,
7108,0,7109,2,
7098,7109,7110,0,
7110,0,7111,2,
6720,6574,7112,1,
7112,0,7113,2,
7113,6633,7114,1,
7114,0,7115,2,
7108,0,7116,2,
7115,7116,7117,0,
7117,0,7118,2,
7111,7118,7119,0,
7098,7115,7120,0,
7120,0,7121,2,
7119,7121,7122,0,
6995,7122,7123,1,
6995,7122,7124,0,
7123,7124,7125,1,
6825,6812,7126,1,
7126,0,7127,2,
7127,6800,7128,1,
6995,0,7129,2,
7128,7129,7130,0,
7130,0,7131,2,
7125,7131,7132,0,
7122,0,7133,2,
7128,7133,7134,0,
7134,0,7135,2,
7132,7135,7136,0,
7136,0,7137,2,
6877,7137,7138,0,
7138,0,7139,2,
6879,7139,7140,0,
7136,0,7141,2,
6842,7141,7142,0,
7142,0,7143,2,
7140,7143,7144,0,
7122,6995,7145,1,
7145,0,7146,2,
7146,7128,7147,1,
6727,6533,7148,1,
7148,6760,7149,1,
7147,7149,7150,1,
7147,7149,7151,0,
7150,7151,7152,1,
7063,7057,7153,1,
7153,7043,7154,1,
363,0,7155,2,
8,7155,7156,0,
258,0,7157,2,
36,7157,7158,0,
7156,7158,7159,0,
7159,0,7160,2,
661,0,7161,2,
35,7161,7162,0,
7162,7156,7163,0,
7163,0,7164,2,
7160,7164,7165,0,
7162,7158,7166,0,
7166,0,7167,2,
7165,7167,7168,0,
7168,0,7169,2,
7154,7169,7170,0,
7170,0,7171,2,
6653,174,7172,1,
7172,6657,7173,1,
7173,0,7174,2,
7169,7174,7175,0,
7175,0,7176,2,
7171,7176,7177,0,
7154,7174,7178,0,
7178,0,7179,2,
7177,7179,7180,0,
7180,0,7181,2,
7030,7013,7182,1,
7182,0,7183,2,
7183,6999,7184,1,
7184,0,7185,2,
6916,6929,7186,1,
7186,0,7187,2,
7187,6946,7188,1,
7188,0,7189,2,
7189,0,7190,2,
7185,7190,7191,0,
7191,0,7192,2,
7162,7158,7193,1,
7193,0,7194,2,
7194,7156,7195,1,
7195,0,7196,2,
6910,6904,7197,1,
7197,0,7198,2,
7198,6906,7199,1,
7199,0,7200,2,
7196,7200,7201,0,
7201,0,7202,2,
4108,4112,7203,0,
7203,0,7204,2,
4112,4106,7205,0,
7205,0,7206,2,
7204,7206,7207,0,
4108,4106,7208,0,
7208,0,7209,2,
7207,7209,7210,0,
7210,0,7211,2,
7196,7211,7212,0,
7212,0,7213,2,
7202,7213,7214,0,
7199,0,7215,2,
7211,7215,7216,0,
7216,0,7217,2,
7214,7217,7218,0,
7218,0,7219,2,
7185,7219,7220,0,
7220,0,7221,2,
7192,7221,7222,0,
7218,7189,7223,1,
7218,7189,7224,0,
7223,7224,7225,1,
7222,7225,7226,0,
7226,0,7227,2,
7181,7227,7228,0,
7228,0,7229,2,
7051,7045,7230,1,
7230,0,7231,2,
7231,7047,7232,1,
7232,0,7233,2,
4130,4133,7234,0,
7234,0,7235,2,
4133,4128,7236,0,
7236,0,7237,2,
7235,7237,7238,0,
4130,4128,7239,0,
7239,0,7240,2,
7238,7240,7241,0,
7241,0,7242,2,
7233,7242,7243,0,
7243,0,7244,2,
4277,4281,7245,0,
7245,0,7246,2,
4281,4275,7247,0,
7247,0,7248,2,
7246,7248,7249,0,
4277,4275,7250,0,
7250,0,7251,2,
7249,7251,7252,0,
7252,0,7253,2,
7233,7253,7254,0,
7254,0,7255,2,
7244,7255,7256,0,
7241,0,7257,2,
7253,7257,7258,0,
7258,0,7259,2,
7256,7259,7260,0,
7260,0,7261,2,
7007,7001,7262,1,
7262,0,7263,2,
7263,7003,7264,1,
7264,0,7265,2,
34,7265,7266,0,
7266,0,7267,2,
7024,7018,7268,1,
7268,0,7269,2,
7269,7020,7270,1,
7270,0,7271,2,
34,7271,7272,0,
7272,0,7273,2,
7267,7273,7274,0,
7271,7265,7275,0,
7275,0,7276,2,
7274,7276,7277,0,
7277,0,7278,2,
7261,7278,7279,0,
7279,0,7280,2,
4365,0,7281,2,
4366,7281,7282,0,
4240,4244,7283,0,
7283,0,7284,2,
4244,4238,7285,0,
7285,0,7286,2,
7284,7286,7287,0,
4238,4240,7288,0,
7288,0,7289,2,
7287,7289,7290,0,
7290,0,7291,2,
7282,7291,7292,0,
7292,0,7293,2,
1,4252,7294,0,
7294,0,7295,2,
4249,4252,7296,0,
7296,0,7297,2,
7295,7297,7298,0,
1,4249,7299,0,
7299,0,7300,2,
7298,7300,7301,0,
7301,0,7302,2,
7302,7282,7303,0,
7303,0,7304,2,
7293,7304,7305,0,
7290,0,7306,2,
7302,7306,7307,0,
7307,0,7308,2,
7305,7308,7309,0,
7309,7277,7310,1,
7309,7277,7311,0,
7310,7311,7312,1,
7280,7312,7313,0,
7309,0,7314,2,
7261,7314,7315,0,
7315,0,7316,2,
7313,7316,7317,0,
7317,7226,7318,1,
7317,7226,7319,0,
7318,7319,7320,1,
7229,7320,7321,0,
7317,0,7322,2,
7181,7322,7323,0,
7323,0,7324,2,
7321,7324,7325,0,
7089,7084,7326,1,
7326,7079,7327,1,
7174,7169,7328,1,
7328,7154,7329,1,
4272,4283,7330,0,
7330,0,7331,2,
4263,0,7332,2,
4283,7332,7333,0,
7333,0,7334,2,
7331,7334,7335,0,
4263,0,7336,2,
4272,7336,7337,0,
7337,0,7338,2,
7335,7338,7339,0,
7339,0,7340,2,
4134,0,7341,2,
4124,7341,7342,0,
7342,0,7343,2,
4114,4124,7344,0,
7344,0,7345,2,
7343,7345,7346,0,
4134,0,7347,2,
4114,7347,7348,0,
7348,0,7349,2,
7346,7349,7350,0,
7350,0,7351,2,
7340,7351,7352,0,
7352,0,7353,2,
4390,0,7354,2,
4392,7354,7355,0,
7355,0,7356,2,
4402,0,7357,2,
4392,7357,7358,0,
7358,0,7359,2,
7356,7359,7360,0,
4390,4402,7361,1,
4390,4402,7362,0,
7361,7362,7363,1,
7360,7363,7364,0,
7364,7350,7365,1,
7364,7350,7366,0,
7365,7366,7367,1,
7353,7367,7368,0,
7364,0,7369,2,
7340,7369,7370,0,
7370,0,7371,2,
7368,7371,7372,0,
7372,0,7373,2,
7329,7373,7374,0,
7374,0,7375,2,
7253,7241,7376,1,
7376,7233,7377,1,
7377,0,7378,2,
6940,6934,7379,1,
7379,0,7380,2,
7380,6936,7381,1,
7381,0,7382,2,
7378,7382,7383,0,
7383,0,7384,2,
7196,7211,7385,1,
7385,7199,7386,1,
7386,0,7387,2,
7387,7382,7388,0,
7388,0,7389,2,
7384,7389,7390,0,
7387,7378,7391,0,
7391,0,7392,2,
7390,7392,7393,0,
7393,0,7394,2,
7394,7329,7395,0,
7395,0,7396,2,
7375,7396,7397,0,
7372,0,7398,2,
7394,7398,7399,0,
7399,0,7400,2,
7397,7400,7401,0,
7401,0,7402,2,
7327,7402,7403,0,
7403,0,7404,2,
6923,173,7405,1,
7405,6919,7406,1,
7406,0,7407,2,
4219,4222,7408,0,
7408,0,7409,2,
33,4222,7410,0,
7410,0,7411,2,
7409,7411,7412,0,
33,4219,7413,0,
7413,0,7414,2,
7412,7414,7415,0,
7415,0,7416,2,
7407,7416,7417,0,
7417,0,7418,2,
4118,4122,7419,0,
7419,0,7420,2,
4122,4116,7421,0,
7421,0,7422,2,
7420,7422,7423,0,
4118,4116,7424,0,
7424,0,7425,2,
7423,7425,7426,0,
7426,0,7427,2,
7427,7407,7428,0,
7428,0,7429,2,
7418,7429,7430,0,
7415,0,7431,2,
7427,7431,7432,0,
7432,0,7433,2,
7430,7433,7434,0,
7434,0,7435,2,
7261,7277,7436,1,
7436,7309,7437,1,
7435,7437,7438,0,
7438,0,7439,2,
6968,6959,7440,1,
7440,0,7441,2,
7441,6962,7442,1,
7442,0,7443,2,
7435,7443,7444,0,
7444,0,7445,2,
7439,7445,7446,0,
7442,0,7447,2,
7437,7447,7448,0,
7448,0,7449,2,
7446,7449,7450,0,
7450,0,7451,2,
7327,7451,7452,0,
7452,0,7453,2,
7404,7453,7454,0,
7450,0,7455,2,
7402,7455,7456,0,
7456,0,7457,2,
7454,7457,7458,0,
7325,7458,7459,1,
7325,7458,7460,0,
7459,7460,7461,1,
6987,6897,7462,1,
7462,0,7463,2,
7463,6900,7464,1,
7464,0,7465,2,
7325,0,7466,2,
7465,7466,7467,0,
7467,0,7468,2,
7461,7468,7469,0,
7458,0,7470,2,
7465,7470,7471,0,
7471,0,7472,2,
7469,7472,7473,0,
7473,7149,7474,1,
7473,7149,7475,0,
7474,7475,7476,1,
7152,7476,7477,0,
7473,7147,7478,1,
7473,7147,7479,0,
7478,7479,7480,1,
7477,7480,7481,0,
7481,0,7482,2,
7458,7325,7483,1,
7483,0,7484,2,
7484,7465,7485,1,
7485,0,7486,2,
7098,7108,7487,1,
7487,7115,7488,1,
7488,0,7489,2,
7486,7489,7490,0,
7490,0,7491,2,
7393,7372,7492,1,
7492,0,7493,2,
7493,7329,7494,1,
7494,0,7495,2,
4367,0,7496,2,
4361,0,7497,2,
7496,7497,7498,0,
7498,0,7499,2,
4353,0,7500,2,
7496,7500,7501,0,
7501,0,7502,2,
7499,7502,7503,0,
4361,0,7504,2,
7500,7504,7505,0,
7505,0,7506,2,
7503,7506,7507,0,
7507,0,7508,2,
7339,7350,7509,1,
7509,0,7510,2,
7510,7364,7511,1,
7508,7511,7512,0,
7512,0,7513,2,
7271,128,7514,1,
7514,7265,7515,1,
7515,0,7516,2,
7508,7516,7517,0,
7517,0,7518,2,
7513,7518,7519,0,
7515,0,7520,2,
7511,7520,7521,0,
7521,0,7522,2,
7519,7522,7523,0,
7523,0,7524,2,
7495,7524,7525,0,
7525,0,7526,2,
4158,0,7527,2,
4166,0,7528,2,
7527,7528,7529,0,
7529,0,7530,2,
4178,4166,7531,1,
4178,4166,7532,0,
7531,7532,7533,1,
7530,7533,7534,0,
4178,0,7535,2,
7527,7535,7536,0,
7536,0,7537,2,
7534,7537,7538,0,
7538,0,7539,2,
7387,7382,7540,1,
7540,7378,7541,1,
7539,7541,7542,0,
7542,0,7543,2,
4254,4285,7544,0,
7544,0,7545,2,
4247,4254,7546,0,
7546,0,7547,2,
7545,7547,7548,0,
4285,4247,7549,0,
7549,0,7550,2,
7548,7550,7551,0,
7551,0,7552,2,
7541,7552,7553,0,
7553,0,7554,2,
7543,7554,7555,0,
7551,0,7556,2,
7539,7556,7557,0,
7557,0,7558,2,
7555,7558,7559,0,
7559,0,7560,2,
7523,0,7561,2,
7560,7561,7562,0,
7562,0,7563,2,
7526,7563,7564,0,
7495,7560,7565,0,
7565,0,7566,2,
7564,7566,7567,0,
7567,0,7568,2,
7180,7226,7569,1,
7569,0,7570,2,
7570,7317,7571,1,
7571,0,7572,2,
7572,0,7573,2,
7568,7573,7574,0,
7574,0,7575,2,
7185,7218,7576,1,
7576,0,7577,2,
7577,7189,7578,1,
7578,0,7579,2,
7442,7434,7580,1,
7580,7437,7581,1,
7581,0,7582,2,
7582,0,7583,2,
7579,7583,7584,0,
7584,0,7585,2,
7426,7415,7586,1,
7586,0,7587,2,
7587,7407,7588,1,
7588,0,7589,2,
7290,7282,7590,1,
7590,0,7591,2,
7591,7302,7592,1,
7592,0,7593,2,
7593,0,7594,2,
7589,7594,7595,0,
7595,0,7596,2,
4245,0,7597,2,
4224,7597,7598,0,
7598,0,7599,2,
4224,4235,7600,0,
7600,0,7601,2,
7599,7601,7602,0,
4245,0,7603,2,
4235,7603,7604,0,
7604,0,7605,2,
7602,7605,7606,0,
7606,0,7607,2,
7589,7607,7608,0,
7608,0,7609,2,
7596,7609,7610,0,
7606,7593,7611,1,
7606,7593,7612,0,
7611,7612,7613,1,
7610,7613,7614,0,
7614,0,7615,2,
7615,7579,7616,0,
7616,0,7617,2,
7585,7617,7618,0,
7582,0,7619,2,
7615,7619,7620,0,
7620,0,7621,2,
7618,7621,7622,0,
7622,7572,7623,1,
7622,7572,7624,0,
7623,7624,7625,1,
7575,7625,7626,0,
7622,0,7627,2,
7568,7627,7628,0,
7628,0,7629,2,
7626,7629,7630,0,
7630,0,7631,2,
7489,7631,7632,0,
7632,0,7633,2,
7491,7633,7634,0,
7630,0,7635,2,
7486,7635,7636,0,
7636,0,7637,2,
7634,7637,7638,0,
7450,7402,7639,1,
7639,7327,7640,1,
7640,0,7641,2,
7622,7568,7642,1,
7642,7572,7643,1,
7643,0,7644,2,
7644,0,7645,2,
7641,7645,7646,0,
7646,0,7647,2,
7579,7615,7648,1,
7648,7582,7649,1,
7649,0,7650,2,
4343,4332,7651,1,
4343,4332,7652,0,
7651,7652,7653,1,
4343,0,7654,2,
4405,7654,7655,0,
7655,0,7656,2,
7653,7656,7657,0,
4332,0,7658,2,
4405,7658,7659,0,
7659,0,7660,2,
7657,7660,7661,0,
7661,0,7662,2,
4180,4147,7663,1,
4180,4147,7664,0,
7663,7664,7665,1,
4136,4147,7666,1,
4136,4147,7667,0,
7666,7667,7668,1,
7665,7668,7669,0,
4136,4180,7670,1,
4136,4180,7671,0,
7670,7671,7672,1,
7669,7672,7673,0,
7673,0,7674,2,
7662,7674,7675,0,
7675,0,7676,2,
4216,4286,7677,0,
7677,0,7678,2,
4205,0,7679,2,
4286,7679,7680,0,
7680,0,7681,2,
7678,7681,7682,0,
4205,0,7683,2,
4216,7683,7684,0,
7684,0,7685,2,
7682,7685,7686,0,
7686,7673,7687,1,
7686,7673,7688,0,
7687,7688,7689,1,
7676,7689,7690,0,
7686,0,7691,2,
7662,7691,7692,0,
7692,0,7693,2,
7690,7693,7694,0,
7694,0,7695,2,
7650,7695,7696,0,
7696,0,7697,2,
7589,7606,7698,1,
7698,0,7699,2,
7699,7593,7700,1,
7700,0,7701,2,
7515,7507,7702,1,
7702,7511,7703,1,
7703,0,7704,2,
7704,0,7705,2,
7701,7705,7706,0,
7706,0,7707,2,
4369,0,7708,2,
4404,7708,7709,0,
7709,0,7710,2,
4369,0,7711,2,
4380,7711,7712,0,
7712,0,7713,2,
7710,7713,7714,0,
4404,4380,7715,0,
7715,0,7716,2,
7714,7716,7717,0,
7717,0,7718,2,
7718,7701,7719,0,
7719,0,7720,2,
7707,7720,7721,0,
7704,0,7722,2,
7718,7722,7723,0,
7723,0,7724,2,
7721,7724,7725,0,
7725,0,7726,2,
7650,7726,7727,0,
7727,0,7728,2,
7697,7728,7729,0,
7725,7694,7730,1,
7725,7694,7731,0,
7730,7731,7732,1,
7729,7732,7733,0,
7733,0,7734,2,
7641,7734,7735,0,
7735,0,7736,2,
7647,7736,7737,0,
7733,7644,7738,1,
7733,7644,7739,0,
7738,7739,7740,1,
7737,7740,7741,0,
7741,0,7742,2,
7725,7694,7743,1,
7743,0,7744,2,
7744,7650,7745,1,
7745,0,7746,2,
7560,7523,7747,1,
7747,7494,7748,1,
7746,7748,7749,0,
7749,0,7750,2,
4287,0,7751,2,
4192,0,7752,2,
7751,7752,7753,0,
7753,0,7754,2,
7751,4182,7755,0,
7755,0,7756,2,
7754,7756,7757,0,
4192,0,7758,2,
4182,7758,7759,0,
7759,0,7760,2,
7757,7760,7761,0,
7761,0,7762,2,
7551,7539,7763,1,
7763,7541,7764,1,
7764,0,7765,2,
7762,7765,7766,0,
7766,0,7767,2,
7701,7718,7768,1,
7768,0,7769,2,
7769,7704,7770,1,
7770,0,7771,2,
7771,7764,7772,1,
7771,7764,7773,0,
7772,7773,7774,1,
7767,7774,7775,0,
7771,0,7776,2,
7762,7776,7777,0,
7777,0,7778,2,
7775,7778,7779,0,
7779,0,7780,2,
7748,7780,7781,0,
7781,0,7782,2,
7750,7782,7783,0,
7779,0,7784,2,
7746,7784,7785,0,
7785,0,7786,2,
7783,7786,7787,0,
7771,7762,7788,1,
7788,0,7789,2,
7789,7764,7790,1,
7790,0,7791,2,
7661,7673,7792,1,
7792,0,7793,2,
7793,7686,7794,1,
7791,7794,7795,0,
7795,0,7796,2,
4319,4309,7797,1,
4319,4309,7798,0,
7797,7798,7799,1,
4319,0,7800,2,
4407,7800,7801,0,
7801,0,7802,2,
7799,7802,7803,0,
4309,0,7804,2,
4407,7804,7805,0,
7805,0,7806,2,
7803,7806,7807,0,
7807,0,7808,2,
7794,7808,7809,0,
7809,0,7810,2,
7796,7810,7811,0,
7807,0,7812,2,
7791,7812,7813,0,
7813,0,7814,2,
7811,7814,7815,0,
7815,0,7816,2,
4288,0,7817,2,
4409,7817,7818,0,
7818,0,7819,2,
4298,4288,7820,1,
4298,4288,7821,0,
7820,7821,7822,1,
7819,7822,7823,0,
4298,0,7824,2,
4409,7824,7825,0,
7825,0,7826,2,
7823,7826,7827,0,
7827,0,7828,2,
4103,0,7829,2,
1515,7829,7830,0,
7830,0,7831,2,
4411,0,7832,2,
1515,7832,7833,0,
7833,0,7834,2,
7831,7834,7835,0,
4411,4103,7836,1,
4411,4103,7837,0,
7836,7837,7838,1,
7835,7838,7839,0,
7839,0,7840,2,
7828,7840,7841,0,
7841,0,7842,2,
7794,7807,7843,1,
7843,7791,7844,1,
7844,0,7845,2,
7828,7845,7846,0,
7846,0,7847,2,
7842,7847,7848,0,
7839,0,7849,2,
7845,7849,7850,0,
7850,0,7851,2,
7848,7851,7852,0,
7852,0,7853,2,
7816,7853,7854,0,
7854,0,7855,2,
7748,7779,7856,1,
7856,0,7857,2,
7857,7745,7858,1,
7858,0,7859,2,
7816,7859,7860,0,
7860,0,7861,2,
7855,7861,7862,0,
7858,7852,7863,1,
7858,7852,7864,0,
7863,7864,7865,1,
7862,7865,7866,0,
7787,7866,7867,1,
7787,7866,7868,0,
7867,7868,7869,1,
7641,7733,7870,1,
7870,7644,7871,1,
7787,0,7872,2,
7871,7872,7873,0,
7873,0,7874,2,
7869,7874,7875,0,
7866,0,7876,2,
7871,7876,7877,0,
7877,0,7878,2,
7875,7878,7879,0,
7879,0,7880,2,
7742,7880,7881,0,
7881,0,7882,2,
7489,7630,7883,1,
7883,0,7884,2,
7884,7485,7885,1,
7885,0,7886,2,
7742,7886,7887,0,
7887,0,7888,2,
7882,7888,7889,0,
7885,7879,7890,1,
7885,7879,7891,0,
7890,7891,7892,1,
7889,7892,7893,0,
7638,7893,7894,1,
7638,7893,7895,0,
7894,7895,7896,1,
7149,7473,7897,1,
7897,0,7898,2,
7898,7147,7899,1,
7638,0,7900,2,
7899,7900,7901,0,
7901,0,7902,2,
7896,7902,7903,0,
7893,0,7904,2,
7899,7904,7905,0,
7905,0,7906,2,
7903,7906,7907,0,
7907,0,7908,2,
7482,7908,7909,0,
7909,0,7910,2,
6877,7136,7911,1,
7911,6841,7912,1,
7482,7912,7913,0,
7913,0,7914,2,
7910,7914,7915,0,
7907,0,7916,2,
7912,7916,7917,0,
7917,0,7918,2,
7915,7918,7919,0,
7144,7919,7920,1,
7144,7919,7921,0,
7920,7921,7922,1,
6768,6834,7923,0,
7923,0,7924,2,
6840,6834,7925,0,
7925,0,7926,2,
7924,7926,7927,0,
6840,6768,7928,0,
7928,0,7929,2,
7927,7929,7930,0,
7930,0,7931,2,
6865,0,7932,2,
6854,7932,7933,0,
7933,0,7934,2,
6876,6865,7935,1,
6876,6865,7936,0,
7935,7936,7937,1,
7934,7937,7938,0,
6876,0,7939,2,
6854,7939,7940,0,
7940,0,7941,2,
7938,7941,7942,0,
7931,7942,7943,1,
6370,6393,7944,1,
7944,0,7945,2,
7945,6367,7946,1,
7943,7946,7947,1,
7947,0,7948,2,
7144,0,7949,2,
7948,7949,7950,0,
7950,0,7951,2,
7922,7951,7952,0,
7919,0,7953,2,
7948,7953,7954,0,
7954,0,7955,2,
7952,7955,7956,0,
7956,0,7957,2,
6411,7957,7958,0,
7958,0,7959,2,
7942,0,7960,2,
7931,7960,7961,0,
7961,0,7962,2,
7942,0,7963,2,
7946,7963,7964,0,
7964,0,7965,2,
7962,7965,7966,0,
7946,7931,7967,0,
7967,0,7968,2,
7966,7968,7969,0,
7969,0,7970,2,
7970,6411,7971,0,
7971,0,7972,2,
7959,7972,7973,0,
7956,0,7974,2,
7970,7974,7975,0,
7975,0,7976,2,
7973,7976,7977,0,
7977,0,7978,2,
6408,7978,7979,0,
7979,0,7980,2,
6093,6347,7981,1,
7981,6097,7982,1,
7982,0,7983,2,
6408,7983,7984,0,
7984,0,7985,2,
7980,7985,7986,0,
7977,0,7987,2,
7983,7987,7988,0,
7988,0,7989,2,
7986,7989,7990,0,
7990,0,7991,2,
6355,7991,7992,0,
7992,0,7993,2,
5819,6081,7994,1,
7994,0,7995,2,
7995,5814,7996,1,
7996,0,7997,2,
6355,7997,7998,0,
7998,0,7999,2,
7993,7999,8000,0,
7996,7990,8001,1,
7996,7990,8002,0,
8001,8002,8003,1,
8000,8003,8004,0,
6089,8004,8005,1,
6089,8004,8006,0,
8005,8006,8007,1,
5612,5802,8008,1,
8008,0,8009,2,
8009,5610,8010,1,
6089,0,8011,2,
8010,8011,8012,0,
8012,0,8013,2,
8007,8013,8014,0,
8004,0,8015,2,
8010,8015,8016,0,
8016,0,8017,2,
8014,8017,8018,0,
8018,0,8019,2,
5811,8019,8020,0,
8020,0,8021,2,
5187,5599,8022,1,
8022,5341,8023,1,
8023,0,8024,2,
5811,8024,8025,0,
8025,0,8026,2,
8021,8026,8027,0,
8018,0,8028,2,
8024,8028,8029,0,
8029,0,8030,2,
8027,8030,8031,0,
5607,8031,8032,1,
5607,8031,8033,0,
8032,8033,8034,1,
5334,0,8035,2,
5300,8035,8036,0,
8036,0,8037,2,
5334,0,8038,2,
5339,8038,8039,0,
8039,0,8040,2,
8037,8040,8041,0,
5339,5300,8042,0,
8042,0,8043,2,
8041,8043,8044,0,
8044,0,8045,2,
5135,0,8046,2,
5127,8046,8047,0,
8047,0,8048,2,
5186,5135,8049,1,
5186,5135,8050,0,
8049,8050,8051,1,
8048,8051,8052,0,
5186,0,8053,2,
5127,8053,8054,0,
8054,0,8055,2,
8052,8055,8056,0,
8045,8056,8057,1,
5047,5068,8058,1,
8058,5043,8059,1,
8057,8059,8060,1,
8060,0,8061,2,
5607,0,8062,2,
8061,8062,8063,0,
8063,0,8064,2,
8034,8064,8065,0,
8031,0,8066,2,
8061,8066,8067,0,
8067,0,8068,2,
8065,8068,8069,0,
8069,0,8070,2,
5033,5075,8071,1,
8071,0,8072,2,
8072,5036,8073,1,
8073,0,8074,2,
8070,8074,8075,0,
8075,0,8076,2,
8056,0,8077,2,
8045,8077,8078,0,
8078,0,8079,2,
8056,0,8080,2,
8059,8080,8081,0,
8081,0,8082,2,
8079,8082,8083,0,
8059,8045,8084,0,
8084,0,8085,2,
8083,8085,8086,0,
8086,0,8087,2,
8074,8087,8088,0,
8088,0,8089,2,
8076,8089,8090,0,
8086,0,8091,2,
8070,8091,8092,0,
8092,0,8093,2,
8090,8093,8094,0,
8094,0,8095,2,
5084,8095,8096,0,
8096,0,8097,2,
4861,5021,8098,1,
8098,4864,8099,1,
8099,0,8100,2,
5084,8100,8101,0,
8101,0,8102,2,
8097,8102,8103,0,
8094,0,8104,2,
8100,8104,8105,0,
8105,0,8106,2,
8103,8106,8107,0,
8107,0,8108,2,
5029,8108,8109,0,
8109,0,8110,2,
4608,4850,8111,1,
8111,4706,8112,1,
8112,0,8113,2,
5029,8113,8114,0,
8114,0,8115,2,
8110,8115,8116,0,
8107,0,8117,2,
8113,8117,8118,0,
8118,0,8119,2,
8116,8119,8120,0,
4858,8120,8121,1,
4858,8120,8122,0,
8121,8122,8123,1,
4700,0,8124,2,
4665,8124,8125,0,
8125,0,8126,2,
4700,0,8127,2,
4704,8127,8128,0,
8128,0,8129,2,
8126,8129,8130,0,
4704,4665,8131,0,
8131,0,8132,2,
8130,8132,8133,0,
8133,0,8134,2,
4592,0,8135,2,
4582,8135,8136,0,
8136,0,8137,2,
4607,4592,8138,1,
4607,4592,8139,0,
8138,8139,8140,1,
8137,8140,8141,0,
4607,0,8142,2,
4582,8142,8143,0,
8143,0,8144,2,
8141,8144,8145,0,
8145,0,8146,2,
8134,8146,8147,1,
8147,0,8148,2,
4522,4545,8149,1,
8149,4525,8150,1,
8150,0,8151,2,
8148,8151,8152,1,
8152,0,8153,2,
4858,0,8154,2,
8153,8154,8155,0,
8155,0,8156,2,
8123,8156,8157,0,
8120,0,8158,2,
8153,8158,8159,0,
8159,0,8160,2,
8157,8160,8161,0,
8161,0,8162,2,
4563,8162,8163,0,
8163,0,8164,2,
8134,8146,8165,0,
8165,0,8166,2,
8151,8146,8167,0,
8167,0,8168,2,
8166,8168,8169,0,
8134,8151,8170,0,
8170,0,8171,2,
8169,8171,8172,0,
8172,0,8173,2,
8173,4563,8174,0,
8174,0,8175,2,
8164,8175,8176,0,
8161,0,8177,2,
8173,8177,8178,0,
8178,0,8179,2,
8176,8179,8180,0,
4560,8180,8181,1,
4560,8180,8182,0,
8181,8182,8183,1,
4507,0,8184,2,
4495,8184,8185,0,
8185,0,8186,2,
4507,0,8187,2,
4515,8187,8188,0,
8188,0,8189,2,
8186,8189,8190,0,
4515,4495,8191,0,
8191,0,8192,2,
8190,8192,8193,0,
8193,0,8194,2,
4441,4455,8195,1,
4441,4455,8196,0,
8195,8196,8197,1,
4441,0,8198,2,
51,8198,8199,0,
8199,0,8200,2,
8197,8200,8201,0,
4455,0,8202,2,
51,8202,8203,0,
8203,0,8204,2,
8201,8204,8205,0,
8205,0,8206,2,
8194,8206,8207,1,
8207,0,8208,2,
19,4510,8209,0,
8209,0,8210,2,
19,4513,8211,0,
8211,0,8212,2,
8210,8212,8213,0,
4510,4513,8214,0,
8214,0,8215,2,
8213,8215,8216,0,
8216,0,8217,2,
8217,287,8218,1,
8218,0,8219,2,
22,53,8220,0,
8220,0,8221,2,
8221,259,8222,1,
8222,0,8223,2,
258,0,8224,2,
54,8224,8225,0,
8223,8225,8226,1,
8226,0,8227,2,
8219,8227,8228,1,
8208,8228,8229,1,
8229,0,8230,2,
4560,0,8231,2,
8230,8231,8232,0,
8232,0,8233,2,
8183,8233,8234,0,
8180,0,8235,2,
8230,8235,8236,0,
8236,0,8237,2,
8234,8237,8238,0,
8238,0,8239,2,
52,8227,8240,0,
8240,0,8241,2,
52,8217,8242,0,
8242,0,8243,2,
8241,8243,8244,0,
8217,8227,8245,0,
8245,0,8246,2,
8244,8246,8247,0,
8247,0,8248,2,
8221,0,8249,2,
20,8249,8250,0,
8250,0,8251,2,
20,8225,8252,0,
8252,0,8253,2,
8251,8253,8254,0,
8221,0,8255,2,
8225,8255,8256,0,
8256,0,8257,2,
8254,8257,8258,0,
8258,0,8259,2,
8248,8259,8260,1,
8260,0,8261,2,
258,286,8262,1,
4432,8262,8263,1,
8261,8263,8264,1,
8264,0,8265,2,
8239,8265,8266,0,
8266,0,8267,2,
8194,8206,8268,0,
8268,0,8269,2,
8228,8206,8270,0,
8270,0,8271,2,
8269,8271,8272,0,
8194,8228,8273,0,
8273,0,8274,2,
8272,8274,8275,0,
8275,0,8276,2,
8265,8276,8277,0,
8277,0,8278,2,
8267,8278,8279,0,
8275,0,8280,2,
8239,8280,8281,0,
8281,0,8282,2,
8279,8282,8283,0,
8283,0,8284,2,
4439,8284,8285,0,
8285,0,8286,2,
8248,8259,8287,0,
8287,0,8288,2,
8263,8259,8289,0,
8289,0,8290,2,
8288,8290,8291,0,
8263,8248,8292,0,
8292,0,8293,2,
8291,8293,8294,0,
8294,0,8295,2,
4439,8295,8296,0,
8296,0,8297,2,
8286,8297,8298,0,
8294,8283,8299,1,
8294,8283,8300,0,
8299,8300,8301,1,
8298,8301,8302,0,
4438,0,8303,2,
22,8303,8304,0,
8304,0,8305,2,
22,54,8306,0,
8306,0,8307,2,
8305,8307,8308,0,
4438,0,8309,2,
54,8309,8310,0,
8310,0,8311,2,
8308,8311,8312,0,
8312,0,8313,2,
8313,0,8314,2,
8302,8314,8315,0,
8315,0,8316,2,
4427,8316,8317,0,
1972,4090,8318,1,
8318,4096,8319,1,
8319,0,8320,2,
8317,8320,8321,0,
4413,0,8322,2,
8321,8322,8323,1,
4078,4082,8324,1,
1976,8324,8325,1,
8325,0,8326,2,
4414,417,8327,0,
8327,0,8328,2,
420,0,8329,2,
8328,8329,8330,0,
421,417,8331,0,
8331,0,8332,2,
8330,8332,8333,0,
8333,0,8334,2,
8320,0,8335,2,
8334,8335,8336,0,
8336,0,8337,2,
8326,8337,8338,0,
8338,8315,8339,0,
8320,8339,8340,0,
8340,8323,8341,1,
8340,8322,8342,1,
8323,8342,8343,0,
8322,8343,8344,1,
94,105,8345,0,
90,8345,8346,1,
8346,0,8347,2,
8347,0,8348,2,
106,0,8349,2,
8348,8349,8350,0,
107,108,8351,1,
107,108,8352,0,
8351,8352,8353,1,
8353,0,8354,2,
109,110,8355,1,
109,110,8356,0,
8355,8356,8357,1,
8357,0,8358,2,
111,0,8359,2,
100,8359,8360,0,
8345,90,8361,1,
8345,90,8362,0,
8361,8362,8363,1,
8363,93,8364,1,
8363,93,8365,0,
8364,8365,8366,1,
93,8363,8367,1,
8367,0,8368,2,
8313,8302,8369,1,
7827,7839,8370,1,
8370,0,8371,2,
8371,7845,8372,1,
8372,0,8373,2,
8344,8373,8374,0,
7816,7852,8375,1,
8375,7858,8376,1,
8374,8376,8377,0,
7787,7866,8378,1,
8378,0,8379,2,
8379,7871,8380,1,
8380,0,8381,2,
8377,8381,8382,0,
7742,7879,8383,1,
8383,7885,8384,1,
8382,8384,8385,0,
7638,7893,8386,1,
8386,0,8387,2,
8387,7899,8388,1,
8388,0,8389,2,
8385,8389,8390,0,
7481,7907,8391,1,
8391,0,8392,2,
8392,7912,8393,1,
8393,0,8394,2,
8390,8394,8395,0,
7144,7919,8396,1,
8396,0,8397,2,
8397,7948,8398,1,
8398,0,8399,2,
8395,8399,8400,0,
7969,7956,8401,1,
8401,0,8402,2,
8402,6411,8403,1,
8403,0,8404,2,
8400,8404,8405,0,
6408,7977,8406,1,
8406,7983,8407,1,
8407,0,8408,2,
8405,8408,8409,0,
6355,7990,8410,1,
8410,7996,8411,1,
8409,8411,8412,0,
6089,8004,8413,1,
8413,0,8414,2,
8414,8010,8415,1,
8415,0,8416,2,
8412,8416,8417,0,
5810,8018,8418,1,
8418,0,8419,2,
8419,8024,8420,1,
8420,0,8421,2,
8417,8421,8422,0,
5607,8031,8423,1,
8423,0,8424,2,
8424,8061,8425,1,
8425,0,8426,2,
8422,8426,8427,0,
8086,8070,8428,1,
8428,8074,8429,1,
8429,0,8430,2,
8427,8430,8431,0,
5084,8094,8432,1,
8432,8100,8433,1,
8433,0,8434,2,
8431,8434,8435,0,
5028,8107,8436,1,
8436,0,8437,2,
8437,8113,8438,1,
8438,0,8439,2,
8435,8439,8440,0,
4858,8120,8441,1,
8441,0,8442,2,
8442,8153,8443,1,
8443,0,8444,2,
8440,8444,8445,0,
8172,8161,8446,1,
8446,0,8447,2,
8447,4563,8448,1,
8448,0,8449,2,
8445,8449,8450,0,
4560,8180,8451,1,
8451,0,8452,2,
8452,8230,8453,1,
8453,0,8454,2,
8450,8454,8455,0,
8275,8239,8456,1,
8456,8265,8457,1,
8457,0,8458,2,
8455,8458,8459,0,
8294,8283,8460,1,
8460,0,8461,2,
8461,4439,8462,1,
8462,0,8463,2,
8459,8463,8464,0,
8369,8464,8465,1,
8463,8459,8466,1,
8458,8455,8467,1,
8454,8450,8468,1,
8449,8445,8469,1,
8444,8440,8470,1,
8439,8435,8471,1,
8434,8431,8472,1,
8430,8427,8473,1,
8426,8422,8474,1,
8421,8417,8475,1,
8416,8412,8476,1,
8411,8409,8477,1,
8408,8405,8478,1,
8404,8400,8479,1,
8399,8395,8480,1,
8394,8390,8481,1,
8389,8385,8482,1,
8384,8382,8483,1,
8381,8377,8484,1,
8376,8374,8485,1,
8373,8344,8486,1,
8339,8320,8487,1,
106,107,8488,0,
8488,8347,8489,0,
108,109,8490,0,
110,111,8491,0,
8490,8491,8492,0,
8489,8492,8493,0,
8493,0,8494,2,
8368,0,8495,2,
8494,8495,8496,0,
8496,8366,8497,0,
8463,8454,8498,0,
8338,8498,8499,0,
8426,8434,8500,0,
8444,8500,8501,0,
8499,8501,8502,0,
8399,8408,8503,0,
8416,8503,8504,0,
8381,8320,8505,0,
8389,8505,8506,0,
8504,8506,8507,0,
8502,8507,8508,0,
8373,8376,8509,0,
8509,8322,8510,0,
8404,8384,8511,0,
8394,8511,8512,0,
8510,8512,8513,0,
8430,8411,8514,0,
8421,8514,8515,0,
8458,8439,8516,0,
8449,8516,8517,0,
8515,8517,8518,0,
8513,8518,8519,0,
8508,8519,8520,0,
8520,0,8521,2,
8316,0,8522,2,
8521,8522,8523,0,
8347,106,8524,0,
107,108,8525,0,
8524,8525,8526,0,
109,110,8527,0,
111,112,8528,0,
8527,8528,8529,0,
8526,8529,8530,0,
8530,0,8531,2,
8368,0,8532,2,
8531,8532,8533,0,
8360,8358,8534,0,
8354,8350,8535,0,
8534,8535,8536,0,
8536,0,8537,2,
8537,8366,8538,0,
8533,8538,8539,0,
8497,8539,8540,1,
8523,8540,8541,0,
8497,8541,8542,1,
61,62,8543,0,
59,60,8544,0,
8543,8544,8545,0,
57,58,8546,0,
55,56,8547,0,
8546,8547,8548,0,
8545,8548,8549,0,
8549,0,8550,2,
29,30,8551,0,
27,28,8552,0,
8551,8552,8553,0,
25,26,8554,0,
23,24,8555,0,
8554,8555,8556,0,
8553,8556,8557,0,
8557,0,8558,2,
8550,8558,8559,0,
8559,0,8560,2,
56,55,8561,1,
56,55,8562,0,
8561,8562,8563,1,
8563,0,8564,2,
58,57,8565,1,
58,57,8566,0,
8565,8566,8567,1,
8567,0,8568,2,
8564,8568,8569,0,
60,59,8570,1,
60,59,8571,0,
8570,8571,8572,1,
8572,0,8573,2,
62,61,8574,1,
62,61,8575,0,
8574,8575,8576,1,
8576,0,8577,2,
8573,8577,8578,0,
8569,8578,8579,0,
8579,0,8580,2,
24,23,8581,1,
24,23,8582,0,
8581,8582,8583,1,
8583,0,8584,2,
26,25,8585,1,
26,25,8586,0,
8585,8586,8587,1,
8587,0,8588,2,
8584,8588,8589,0,
28,27,8590,1,
28,27,8591,0,
8590,8591,8592,1,
8592,0,8593,2,
30,29,8594,1,
30,29,8595,0,
8594,8595,8596,1,
8596,0,8597,2,
8593,8597,8598,0,
8589,8598,8599,0,
8599,0,8600,2,
8580,8600,8601,0,
8601,0,8602,2,
8560,8602,8603,1,
8560,8602,8604,0,
8603,8604,8605,1,
8605,0,8606,2,
8606,0,8607,2,
8607,0,8608,2,
8542,8608,8609,0,
8609,0,8610,2,
8315,8610,8611,1,
8315,8610,8612,0,
8611,8612,8613,1,
8613,0,8614,2,
8478,8614,8615,0,
8615,0,8616,2,
8316,8610,8617,1,
8316,8610,8618,0,
8617,8618,8619,1,
8619,0,8620,2,
8479,8620,8621,0,
8621,0,8622,2,
8616,8622,8623,0,
8623,0,8624,2,
8614,8479,8625,0,
8625,0,8626,2,
8480,8620,8627,0,
8627,0,8628,2,
8626,8628,8629,0,
8629,0,8630,2,
8614,8480,8631,0,
8631,0,8632,2,
8481,8620,8633,0,
8633,0,8634,2,
8632,8634,8635,0,
8635,0,8636,2,
8614,8481,8637,0,
8637,0,8638,2,
8482,8620,8639,0,
8639,0,8640,2,
8638,8640,8641,0,
8641,0,8642,2,
8614,8482,8643,0,
8643,0,8644,2,
8483,8620,8645,0,
8645,0,8646,2,
8644,8646,8647,0,
8647,0,8648,2,
8614,8483,8649,0,
8649,0,8650,2,
8484,8620,8651,0,
8651,0,8652,2,
8650,8652,8653,0,
8653,0,8654,2,
8614,8484,8655,0,
8655,0,8656,2,
8485,8620,8657,0,
8657,0,8658,2,
8656,8658,8659,0,
8659,0,8660,2,
31,63,8661,1,
8602,8560,8662,0,
8662,0,8663,2,
8661,8663,8664,0,
8614,8485,8665,0,
8665,0,8666,2,
8486,8620,8667,0,
8667,0,8668,2,
8666,8668,8669,0,
8669,0,8670,2,
8497,0,8671,2,
8606,8671,8672,0,
8496,0,8673,2,
8366,8673,8674,0,
8674,0,8675,2,
8675,8606,8676,0,
8676,0,8677,2,
8672,8677,8678,0,
8678,0,8679,2,
8560,0,8680,2,
8679,8680,8681,0,
8672,0,8682,2,
8676,8682,8683,0,
8683,118,8684,0,
8684,0,8685,2,
8681,8685,8686,0,
106,8538,8687,0,
8687,0,8688,2,
8607,8368,8689,1,
8607,8368,8690,0,
8689,8690,8691,1,
8691,0,8692,2,
8688,8692,8693,0,
107,8538,8694,0,
8694,0,8695,2,
8695,8692,8696,0,
8693,8696,8697,1,
8693,8696,8698,0,
8697,8698,8699,1,
8699,0,8700,2,
110,8538,8701,0,
8701,0,8702,2,
8702,8692,8703,0,
108,8538,8704,0,
8704,0,8705,2,
8705,8692,8706,0,
8703,8706,8707,1,
8703,8706,8708,0,
8707,8708,8709,1,
8709,0,8710,2,
8700,8710,8711,0,
112,8538,8712,0,
8712,0,8713,2,
8692,0,8714,2,
8714,0,8715,2,
8713,8715,8716,0,
109,8538,8717,0,
8717,0,8718,2,
8718,8692,8719,0,
8716,8719,8720,1,
8716,8719,8721,0,
8720,8721,8722,1,
8722,0,8723,2,
111,8538,8724,0,
8724,0,8725,2,
8714,0,8726,2,
8725,8726,8727,0,
8347,8538,8728,0,
8728,0,8729,2,
8714,0,8730,2,
8729,8730,8731,0,
8727,8731,8732,1,
8727,8731,8733,0,
8732,8733,8734,1,
8734,0,8735,2,
8723,8735,8736,0,
8711,8736,8737,0,
8737,0,8738,2,
8523,8738,8739,0,
8686,8693,8740,1,
8739,8740,8741,0,
8686,8741,8742,1,
8742,0,8743,2,
8683,120,8744,0,
8744,0,8745,2,
8681,8745,8746,0,
8746,8696,8747,1,
8739,8747,8748,0,
8746,8748,8749,1,
8749,0,8750,2,
8614,8465,8751,0,
8751,0,8752,2,
8466,8620,8753,0,
8753,0,8754,2,
8752,8754,8755,0,
8755,0,8756,2,
8614,8466,8757,0,
8757,0,8758,2,
8467,8620,8759,0,
8759,0,8760,2,
8758,8760,8761,0,
8761,0,8762,2,
8614,8467,8763,0,
8763,0,8764,2,
8468,8620,8765,0,
8765,0,8766,2,
8764,8766,8767,0,
8767,0,8768,2,
8614,8486,8769,0,
8769,0,8770,2,
8620,8341,8771,0,
8771,0,8772,2,
8770,8772,8773,0,
8773,0,8774,2,
8614,8468,8775,0,
8775,0,8776,2,
8469,8620,8777,0,
8777,0,8778,2,
8776,8778,8779,0,
8779,0,8780,2,
8614,8469,8781,0,
8781,0,8782,2,
8470,8620,8783,0,
8783,0,8784,2,
8782,8784,8785,0,
8785,0,8786,2,
8614,8470,8787,0,
8787,0,8788,2,
8471,8620,8789,0,
8789,0,8790,2,
8788,8790,8791,0,
8791,0,8792,2,
8614,8471,8793,0,
8793,0,8794,2,
8472,8620,8795,0,
8795,0,8796,2,
8794,8796,8797,0,
8797,0,8798,2,
8614,8472,8799,0,
8799,0,8800,2,
8473,8620,8801,0,
8801,0,8802,2,
8800,8802,8803,0,
8803,0,8804,2,
8614,8473,8805,0,
8805,0,8806,2,
8474,8620,8807,0,
8807,0,8808,2,
8806,8808,8809,0,
8809,0,8810,2,
8614,8474,8811,0,
8811,0,8812,2,
8475,8620,8813,0,
8813,0,8814,2,
8812,8814,8815,0,
8815,0,8816,2,
8614,8475,8817,0,
8817,0,8818,2,
8476,8620,8819,0,
8819,0,8820,2,
8818,8820,8821,0,
8821,0,8822,2,
8614,8476,8823,0,
8823,0,8824,2,
8477,8620,8825,0,
8825,0,8826,2,
8824,8826,8827,0,
8827,0,8828,2,
8614,8477,8829,0,
8829,0,8830,2,
8620,8478,8831,0,
8831,0,8832,2,
8830,8832,8833,0,
8833,0,8834,2,
8614,8341,8835,0,
8835,0,8836,2,
8620,8487,8837,0,
8837,0,8838,2,
8836,8838,8839,0,
8839,0,8840,2,
100,8683,8841,0,
8841,0,8842,2,
8681,8842,8843,0,
8843,8716,8844,1,
8739,8844,8845,0,
8843,8845,8846,1,
8846,0,8847,2,
8683,124,8848,0,
8848,0,8849,2,
8681,8849,8850,0,
8850,8727,8851,1,
8739,8851,8852,0,
8850,8852,8853,1,
8853,0,8854,2,
8683,123,8855,0,
8855,0,8856,2,
8681,8856,8857,0,
8857,8703,8858,1,
8739,8858,8859,0,
8857,8859,8860,1,
8860,0,8861,2,
8683,122,8862,0,
8862,0,8863,2,
8681,8863,8864,0,
8864,8719,8865,1,
8739,8865,8866,0,
8864,8866,8867,1,
8867,0,8868,2,
8683,121,8869,0,
8869,0,8870,2,
8681,8870,8871,0,
8871,8706,8872,1,
8739,8872,8873,0,
8871,8873,8874,1,
8874,0,8875,2,
8348,119,8876,1,
8876,0,8877,2,
8877,8683,8878,0,
8878,0,8879,2,
8681,8879,8880,0,
8880,8731,8881,1,
8739,8881,8882,0,
8880,8882,8883,1,
8883,0,8884,2,
0,0,8885,1,
8885,8840,8886,1,
8885,8774,8887,1,
8885,8670,8888,1,
8885,8660,8889,1,
8885,8654,8890,1,
8885,8648,8891,1,
8885,8642,8892,1,
8885,8636,8893,1,
8885,8630,8894,1,
8885,8624,8895,1,
8885,8834,8896,1,
8885,8828,8897,1,
8885,8822,8898,1,
8885,8816,8899,1,
8885,8810,8900,1,
8885,8804,8901,1,
8885,8798,8902,1,
8885,8792,8903,1,
8885,8786,8904,1,
8885,8780,8905,1,
8885,8768,8906,1,
8885,8762,8907,1,
8885,8756,8908,1,
8885,8847,8909,1,
8885,8854,8910,1,
8885,8861,8911,1,
8885,8868,8912,1,
8885,8875,8913,1,
8885,8750,8914,1,
8885,8743,8915,1,
8885,8884,8916,1,
8885,8664,8917,1,
