0,0,64,2,
32,64,65,0,
65,0,66,2,
33,0,67,2,
66,67,68,0,
68,0,69,2,
33,0,70,2,
1,70,71,0,
71,0,72,2,
69,72,73,0,
65,0,74,2,
1,74,75,0,
75,0,76,2,
73,76,77,0,
77,34,78,1,
77,34,79,0,
78,79,80,1,
34,0,81,2,
2,0,82,2,
82,0,83,2,
81,83,84,0,
84,0,85,2,
80,85,86,0,
77,82,87,1,
77,82,88,0,
87,88,89,1,
86,89,90,0,
90,35,91,1,
90,35,92,0,
91,92,93,1,
35,0,94,2,
3,94,95,0,
95,0,96,2,
93,96,97,0,
90,0,98,2,
3,98,99,0,
99,0,100,2,
97,100,101,0,
101,36,102,1,
101,36,103,0,
102,103,104,1,
36,0,105,2,
4,105,106,0,
106,0,107,2,
104,107,108,0,
101,0,109,2,
4,109,110,0,
110,0,111,2,
108,111,112,0,
112,37,113,1,
112,37,114,0,
113,114,115,1,
37,0,116,2,
5,116,117,0,
117,0,118,2,
115,118,119,0,
112,0,120,2,
5,120,121,0,
121,0,122,2,
119,122,123,0,
123,38,124,1,
123,38,125,0,
124,125,126,1,
38,0,127,2,
6,0,128,2,
128,0,129,2,
127,129,130,0,
130,0,131,2,
126,131,132,0,
123,128,133,1,
123,128,134,0,
133,134,135,1,
132,135,136,0,
136,39,137,1,
136,39,138,0,
137,138,139,1,
39,0,140,2,
7,140,141,0,
141,0,142,2,
139,142,143,0,
136,0,144,2,
7,144,145,0,
145,0,146,2,
143,146,147,0,
147,40,148,1,
147,40,149,0,
148,149,150,1,
40,0,151,2,
8,151,152,0,
152,0,153,2,
150,153,154,0,
147,0,155,2,
8,155,156,0,
156,0,157,2,
154,157,158,0,
158,41,159,1,
158,41,160,0,
159,160,161,1,
41,0,162,2,
9,162,163,0,
163,0,164,2,
161,164,165,0,
158,0,166,2,
9,166,167,0,
167,0,168,2,
165,168,169,0,
169,42,170,1,
169,42,171,0,
170,171,172,1,
42,0,173,2,
10,0,174,2,
174,0,175,2,
173,175,176,0,
176,0,177,2,
172,177,178,0,
169,174,179,1,
169,174,180,0,
179,180,181,1,
178,181,182,0,
182,43,183,1,
182,43,184,0,
183,184,185,1,
43,0,186,2,
11,186,187,0,
187,0,188,2,
185,188,189,0,
182,0,190,2,
11,190,191,0,
191,0,192,2,
189,192,193,0,
193,44,194,1,
193,44,195,0,
194,195,196,1,
44,0,197,2,
12,197,198,0,
198,0,199,2,
196,199,200,0,
193,0,201,2,
12,201,202,0,
202,0,203,2,
200,203,204,0,
204,45,205,1,
204,45,206,0,
205,206,207,1,
45,0,208,2,
13,208,209,0,
209,0,210,2,
207,210,211,0,
204,0,212,2,
13,212,213,0,
213,0,214,2,
211,214,215,0,
215,46,216,1,
215,46,217,0,
216,217,218,1,
46,0,219,2,
14,0,220,2,
220,0,221,2,
219,221,222,0,
222,0,223,2,
218,223,224,0,
215,220,225,1,
215,220,226,0,
225,226,227,1,
224,227,228,0,
228,47,229,1,
228,47,230,0,
229,230,231,1,
47,0,232,2,
15,232,233,0,
233,0,234,2,
231,234,235,0,
228,0,236,2,
15,236,237,0,
237,0,238,2,
235,238,239,0,
239,48,240,1,
239,48,241,0,
240,241,242,1,
48,0,243,2,
16,243,244,0,
244,0,245,2,
242,245,246,0,
239,0,247,2,
16,247,248,0,
248,0,249,2,
246,249,250,0,
250,49,251,1,
250,49,252,0,
251,252,253,1,
49,0,254,2,
17,254,255,0,
255,0,256,2,
253,256,257,0,
250,0,258,2,
17,258,259,0,
259,0,260,2,
257,260,261,0,
261,50,262,1,
261,50,263,0,
262,263,264,1,
50,0,265,2,
18,0,266,2,
266,0,267,2,
265,267,268,0,
268,0,269,2,
264,269,270,0,
261,266,271,1,
261,266,272,0,
271,272,273,1,
270,273,274,0,
274,51,275,1,
274,51,276,0,
275,276,277,1,
51,0,278,2,
19,278,279,0,
279,0,280,2,
277,280,281,0,
274,0,282,2,
19,282,283,0,
283,0,284,2,
281,284,285,0,
285,52,286,1,
285,52,287,0,
286,287,288,1,
52,0,289,2,
20,289,290,0,
290,0,291,2,
288,291,292,0,
285,0,293,2,
20,293,294,0,
294,0,295,2,
292,295,296,0,
296,53,297,1,
296,53,298,0,
297,298,299,1,
53,0,300,2,
21,300,301,0,
301,0,302,2,
299,302,303,0,
296,0,304,2,
21,304,305,0,
305,0,306,2,
303,306,307,0,
307,54,308,1,
307,54,309,0,
308,309,310,1,
54,0,311,2,
22,311,312,0,
312,0,313,2,
310,313,314,0,
307,0,315,2,
22,315,316,0,
316,0,317,2,
314,317,318,0,
318,0,319,2,
54,0,320,2,
22,320,321,1,
321,0,322,2,
307,322,323,1,
22,323,324,1,
319,324,325,0,
22,325,326,1,
33,0,327,2,
32,0,328,2,
327,328,329,0,
329,0,330,2,
32,0,331,1,
0,331,332,1,
319,332,333,0,
0,333,334,1,
33,0,335,2,
334,335,336,0,
336,0,337,2,
330,337,338,0,
32,0,339,2,
334,339,340,0,
340,0,341,2,
338,341,342,0,
342,34,343,1,
342,34,344,0,
343,344,345,1,
1,327,346,1,
346,0,347,2,
66,347,348,1,
348,0,349,2,
1,349,350,1,
319,350,351,0,
1,351,352,1,
34,0,353,2,
352,353,354,0,
354,0,355,2,
345,355,356,0,
342,0,357,2,
352,357,358,0,
358,0,359,2,
356,359,360,0,
360,35,361,1,
360,35,362,0,
361,362,363,1,
82,34,364,1,
364,0,365,2,
77,365,366,1,
2,366,367,1,
319,367,368,0,
2,368,369,1,
35,0,370,2,
369,370,371,0,
371,0,372,2,
363,372,373,0,
360,0,374,2,
369,374,375,0,
375,0,376,2,
373,376,377,0,
377,36,378,1,
377,36,379,0,
378,379,380,1,
35,0,381,2,
3,381,382,1,
382,0,383,2,
90,383,384,1,
3,384,385,1,
319,385,386,0,
3,386,387,1,
36,0,388,2,
387,388,389,0,
389,0,390,2,
380,390,391,0,
377,0,392,2,
387,392,393,0,
393,0,394,2,
391,394,395,0,
395,37,396,1,
395,37,397,0,
396,397,398,1,
36,0,399,2,
4,399,400,1,
400,0,401,2,
101,401,402,1,
4,402,403,1,
319,403,404,0,
4,404,405,1,
37,0,406,2,
405,406,407,0,
407,0,408,2,
398,408,409,0,
395,0,410,2,
405,410,411,0,
411,0,412,2,
409,412,413,0,
413,38,414,1,
413,38,415,0,
414,415,416,1,
37,0,417,2,
5,417,418,1,
418,0,419,2,
112,419,420,1,
5,420,421,1,
319,421,422,0,
5,422,423,1,
38,0,424,2,
423,424,425,0,
425,0,426,2,
416,426,427,0,
413,0,428,2,
423,428,429,0,
429,0,430,2,
427,430,431,0,
431,39,432,1,
431,39,433,0,
432,433,434,1,
128,38,435,1,
435,0,436,2,
123,436,437,1,
6,437,438,1,
319,438,439,0,
6,439,440,1,
39,0,441,2,
440,441,442,0,
442,0,443,2,
434,443,444,0,
431,0,445,2,
440,445,446,0,
446,0,447,2,
444,447,448,0,
448,40,449,1,
448,40,450,0,
449,450,451,1,
39,0,452,2,
7,452,453,1,
453,0,454,2,
136,454,455,1,
7,455,456,1,
319,456,457,0,
7,457,458,1,
40,0,459,2,
458,459,460,0,
460,0,461,2,
451,461,462,0,
448,0,463,2,
458,463,464,0,
464,0,465,2,
462,465,466,0,
466,41,467,1,
466,41,468,0,
467,468,469,1,
40,0,470,2,
8,470,471,1,
471,0,472,2,
147,472,473,1,
8,473,474,1,
319,474,475,0,
8,475,476,1,
41,0,477,2,
476,477,478,0,
478,0,479,2,
469,479,480,0,
466,0,481,2,
476,481,482,0,
482,0,483,2,
480,483,484,0,
484,42,485,1,
484,42,486,0,
485,486,487,1,
41,0,488,2,
9,488,489,1,
489,0,490,2,
158,490,491,1,
9,491,492,1,
319,492,493,0,
9,493,494,1,
42,0,495,2,
494,495,496,0,
496,0,497,2,
487,497,498,0,
484,0,499,2,
494,499,500,0,
500,0,501,2,
498,501,502,0,
502,43,503,1,
502,43,504,0,
503,504,505,1,
174,42,506,1,
506,0,507,2,
169,507,508,1,
10,508,509,1,
319,509,510,0,
10,510,511,1,
43,0,512,2,
511,512,513,0,
513,0,514,2,
505,514,515,0,
502,0,516,2,
511,516,517,0,
517,0,518,2,
515,518,519,0,
519,44,520,1,
519,44,521,0,
520,521,522,1,
43,0,523,2,
11,523,524,1,
524,0,525,2,
182,525,526,1,
11,526,527,1,
319,527,528,0,
11,528,529,1,
44,0,530,2,
529,530,531,0,
531,0,532,2,
522,532,533,0,
519,0,534,2,
529,534,535,0,
535,0,536,2,
533,536,537,0,
537,45,538,1,
537,45,539,0,
538,539,540,1,
44,0,541,2,
12,541,542,1,
542,0,543,2,
193,543,544,1,
12,544,545,1,
319,545,546,0,
12,546,547,1,
45,0,548,2,
547,548,549,0,
549,0,550,2,
540,550,551,0,
537,0,552,2,
547,552,553,0,
553,0,554,2,
551,554,555,0,
555,46,556,1,
555,46,557,0,
556,557,558,1,
45,0,559,2,
13,559,560,1,
560,0,561,2,
204,561,562,1,
13,562,563,1,
319,563,564,0,
13,564,565,1,
46,0,566,2,
565,566,567,0,
567,0,568,2,
558,568,569,0,
555,0,570,2,
565,570,571,0,
571,0,572,2,
569,572,573,0,
573,47,574,1,
573,47,575,0,
574,575,576,1,
220,46,577,1,
577,0,578,2,
215,578,579,1,
14,579,580,1,
319,580,581,0,
14,581,582,1,
47,0,583,2,
582,583,584,0,
584,0,585,2,
576,585,586,0,
573,0,587,2,
582,587,588,0,
588,0,589,2,
586,589,590,0,
590,48,591,1,
590,48,592,0,
591,592,593,1,
47,0,594,2,
15,594,595,1,
595,0,596,2,
228,596,597,1,
15,597,598,1,
319,598,599,0,
15,599,600,1,
48,0,601,2,
600,601,602,0,
602,0,603,2,
593,603,604,0,
590,0,605,2,
600,605,606,0,
606,0,607,2,
604,607,608,0,
608,49,609,1,
608,49,610,0,
609,610,611,1,
48,0,612,2,
16,612,613,1,
613,0,614,2,
239,614,615,1,
16,615,616,1,
319,616,617,0,
16,617,618,1,
49,0,619,2,
618,619,620,0,
620,0,621,2,
611,621,622,0,
608,0,623,2,
618,623,624,0,
624,0,625,2,
622,625,626,0,
626,50,627,1,
626,50,628,0,
627,628,629,1,
49,0,630,2,
17,630,631,1,
631,0,632,2,
250,632,633,1,
17,633,634,1,
319,634,635,0,
17,635,636,1,
50,0,637,2,
636,637,638,0,
638,0,639,2,
629,639,640,0,
626,0,641,2,
636,641,642,0,
642,0,643,2,
640,643,644,0,
644,51,645,1,
644,51,646,0,
645,646,647,1,
266,50,648,1,
648,0,649,2,
261,649,650,1,
18,650,651,1,
319,651,652,0,
18,652,653,1,
51,0,654,2,
653,654,655,0,
655,0,656,2,
647,656,657,0,
644,0,658,2,
653,658,659,0,
659,0,660,2,
657,660,661,0,
661,52,662,1,
661,52,663,0,
662,663,664,1,
51,0,665,2,
19,665,666,1,
666,0,667,2,
274,667,668,1,
19,668,669,1,
319,669,670,0,
19,670,671,1,
52,0,672,2,
671,672,673,0,
673,0,674,2,
664,674,675,0,
661,0,676,2,
671,676,677,0,
677,0,678,2,
675,678,679,0,
679,53,680,1,
679,53,681,0,
680,681,682,1,
52,0,683,2,
20,683,684,1,
684,0,685,2,
285,685,686,1,
20,686,687,1,
319,687,688,0,
20,688,689,1,
53,0,690,2,
689,690,691,0,
691,0,692,2,
682,692,693,0,
679,0,694,2,
689,694,695,0,
695,0,696,2,
693,696,697,0,
697,54,698,1,
697,54,699,0,
698,699,700,1,
53,0,701,2,
21,701,702,1,
702,0,703,2,
296,703,704,1,
21,704,705,1,
319,705,706,0,
21,706,707,1,
54,0,708,2,
707,708,709,0,
709,0,710,2,
700,710,711,0,
697,0,712,2,
707,712,713,0,
713,0,714,2,
711,714,715,0,
715,0,716,2,
326,716,717,0,
717,0,718,2,
718,319,719,0,
719,0,720,2,
720,32,721,0,
320,707,722,1,
722,0,723,2,
697,723,724,1,
707,724,725,1,
720,725,726,0,
707,726,727,1,
33,0,728,2,
721,728,729,0,
729,0,730,2,
330,730,731,0,
731,34,732,1,
731,34,733,0,
732,733,734,1,
327,32,735,1,
735,0,736,2,
334,736,737,1,
334,737,738,1,
720,738,739,0,
334,739,740,1,
34,0,741,2,
740,741,742,0,
742,0,743,2,
734,743,744,0,
731,0,745,2,
740,745,746,0,
746,0,747,2,
744,747,748,0,
748,35,749,1,
748,35,750,0,
749,750,751,1,
81,352,752,1,
752,0,753,2,
342,753,754,1,
352,754,755,1,
720,755,756,0,
352,756,757,1,
35,0,758,2,
757,758,759,0,
759,0,760,2,
751,760,761,0,
748,0,762,2,
757,762,763,0,
763,0,764,2,
761,764,765,0,
765,36,766,1,
765,36,767,0,
766,767,768,1,
381,369,769,1,
769,0,770,2,
360,770,771,1,
369,771,772,1,
720,772,773,0,
369,773,774,1,
36,0,775,2,
774,775,776,0,
776,0,777,2,
768,777,778,0,
765,0,779,2,
774,779,780,0,
780,0,781,2,
778,781,782,0,
782,37,783,1,
782,37,784,0,
783,784,785,1,
399,387,786,1,
786,0,787,2,
377,787,788,1,
387,788,789,1,
720,789,790,0,
387,790,791,1,
37,0,792,2,
791,792,793,0,
793,0,794,2,
785,794,795,0,
782,0,796,2,
791,796,797,0,
797,0,798,2,
795,798,799,0,
799,38,800,1,
799,38,801,0,
800,801,802,1,
417,405,803,1,
803,0,804,2,
395,804,805,1,
405,805,806,1,
720,806,807,0,
405,807,808,1,
38,0,809,2,
808,809,810,0,
810,0,811,2,
802,811,812,0,
799,0,813,2,
808,813,814,0,
814,0,815,2,
812,815,816,0,
816,39,817,1,
816,39,818,0,
817,818,819,1,
127,423,820,1,
820,0,821,2,
413,821,822,1,
423,822,823,1,
720,823,824,0,
423,824,825,1,
39,0,826,2,
825,826,827,0,
827,0,828,2,
819,828,829,0,
816,0,830,2,
825,830,831,0,
831,0,832,2,
829,832,833,0,
833,40,834,1,
833,40,835,0,
834,835,836,1,
452,440,837,1,
837,0,838,2,
431,838,839,1,
440,839,840,1,
720,840,841,0,
440,841,842,1,
40,0,843,2,
842,843,844,0,
844,0,845,2,
836,845,846,0,
833,0,847,2,
842,847,848,0,
848,0,849,2,
846,849,850,0,
850,41,851,1,
850,41,852,0,
851,852,853,1,
470,458,854,1,
854,0,855,2,
448,855,856,1,
458,856,857,1,
720,857,858,0,
458,858,859,1,
41,0,860,2,
859,860,861,0,
861,0,862,2,
853,862,863,0,
850,0,864,2,
859,864,865,0,
865,0,866,2,
863,866,867,0,
867,42,868,1,
867,42,869,0,
868,869,870,1,
488,476,871,1,
871,0,872,2,
466,872,873,1,
476,873,874,1,
720,874,875,0,
476,875,876,1,
42,0,877,2,
876,877,878,0,
878,0,879,2,
870,879,880,0,
867,0,881,2,
876,881,882,0,
882,0,883,2,
880,883,884,0,
884,43,885,1,
884,43,886,0,
885,886,887,1,
173,494,888,1,
888,0,889,2,
484,889,890,1,
494,890,891,1,
720,891,892,0,
494,892,893,1,
43,0,894,2,
893,894,895,0,
895,0,896,2,
887,896,897,0,
884,0,898,2,
893,898,899,0,
899,0,900,2,
897,900,901,0,
901,44,902,1,
901,44,903,0,
902,903,904,1,
523,511,905,1,
905,0,906,2,
502,906,907,1,
511,907,908,1,
720,908,909,0,
511,909,910,1,
44,0,911,2,
910,911,912,0,
912,0,913,2,
904,913,914,0,
901,0,915,2,
910,915,916,0,
916,0,917,2,
914,917,918,0,
918,45,919,1,
918,45,920,0,
919,920,921,1,
541,529,922,1,
922,0,923,2,
519,923,924,1,
529,924,925,1,
720,925,926,0,
529,926,927,1,
45,0,928,2,
927,928,929,0,
929,0,930,2,
921,930,931,0,
918,0,932,2,
927,932,933,0,
933,0,934,2,
931,934,935,0,
935,46,936,1,
935,46,937,0,
936,937,938,1,
559,547,939,1,
939,0,940,2,
537,940,941,1,
547,941,942,1,
720,942,943,0,
547,943,944,1,
46,0,945,2,
944,945,946,0,
946,0,947,2,
938,947,948,0,
935,0,949,2,
944,949,950,0,
950,0,951,2,
948,951,952,0,
952,47,953,1,
952,47,954,0,
953,954,955,1,
219,565,956,1,
956,0,957,2,
555,957,958,1,
565,958,959,1,
720,959,960,0,
565,960,961,1,
47,0,962,2,
961,962,963,0,
963,0,964,2,
955,964,965,0,
952,0,966,2,
961,966,967,0,
967,0,968,2,
965,968,969,0,
969,48,970,1,
969,48,971,0,
970,971,972,1,
594,582,973,1,
973,0,974,2,
573,974,975,1,
582,975,976,1,
720,976,977,0,
582,977,978,1,
48,0,979,2,
978,979,980,0,
980,0,981,2,
972,981,982,0,
969,0,983,2,
978,983,984,0,
984,0,985,2,
982,985,986,0,
986,49,987,1,
986,49,988,0,
987,988,989,1,
612,600,990,1,
990,0,991,2,
590,991,992,1,
600,992,993,1,
720,993,994,0,
600,994,995,1,
49,0,996,2,
995,996,997,0,
997,0,998,2,
989,998,999,0,
986,0,1000,2,
995,1000,1001,0,
1001,0,1002,2,
999,1002,1003,0,
1003,50,1004,1,
1003,50,1005,0,
1004,1005,1006,1,
630,618,1007,1,
1007,0,1008,2,
608,1008,1009,1,
618,1009,1010,1,
720,1010,1011,0,
618,1011,1012,1,
50,0,1013,2,
1012,1013,1014,0,
1014,0,1015,2,
1006,1015,1016,0,
1003,0,1017,2,
1012,1017,1018,0,
1018,0,1019,2,
1016,1019,1020,0,
1020,51,1021,1,
1020,51,1022,0,
1021,1022,1023,1,
265,636,1024,1,
1024,0,1025,2,
626,1025,1026,1,
636,1026,1027,1,
720,1027,1028,0,
636,1028,1029,1,
51,0,1030,2,
1029,1030,1031,0,
1031,0,1032,2,
1023,1032,1033,0,
1020,0,1034,2,
1029,1034,1035,0,
1035,0,1036,2,
1033,1036,1037,0,
1037,52,1038,1,
1037,52,1039,0,
1038,1039,1040,1,
665,653,1041,1,
1041,0,1042,2,
644,1042,1043,1,
653,1043,1044,1,
720,1044,1045,0,
653,1045,1046,1,
52,0,1047,2,
1046,1047,1048,0,
1048,0,1049,2,
1040,1049,1050,0,
1037,0,1051,2,
1046,1051,1052,0,
1052,0,1053,2,
1050,1053,1054,0,
1054,53,1055,1,
1054,53,1056,0,
1055,1056,1057,1,
683,671,1058,1,
1058,0,1059,2,
661,1059,1060,1,
671,1060,1061,1,
720,1061,1062,0,
671,1062,1063,1,
53,0,1064,2,
1063,1064,1065,0,
1065,0,1066,2,
1057,1066,1067,0,
1054,0,1068,2,
1063,1068,1069,0,
1069,0,1070,2,
1067,1070,1071,0,
1071,54,1072,1,
1071,54,1073,0,
1072,1073,1074,1,
701,689,1075,1,
1075,0,1076,2,
679,1076,1077,1,
689,1077,1078,1,
720,1078,1079,0,
689,1079,1080,1,
54,0,1081,2,
1080,1081,1082,0,
1082,0,1083,2,
1074,1083,1084,0,
1071,0,1085,2,
1080,1085,1086,0,
1086,0,1087,2,
1084,1087,1088,0,
1088,0,1089,2,
727,1089,1090,0,
1090,0,1091,2,
715,326,1092,1,
1092,0,1093,2,
326,1093,1094,1,
720,1094,1095,0,
326,1095,1096,1,
1096,0,1097,2,
1091,1097,1098,0,
1098,0,1099,2,
721,736,1100,1,
721,1100,1101,1,
1099,1101,1102,0,
721,1102,1103,1,
320,1080,1104,1,
1104,0,1105,2,
1071,1105,1106,1,
1080,1106,1107,1,
1099,1107,1108,0,
1080,1108,1109,1,
1099,32,1110,0,
33,0,1111,2,
1110,1111,1112,0,
1112,0,1113,2,
330,1113,1114,0,
1114,34,1115,1,
1114,34,1116,0,
1115,1116,1117,1,
34,0,1118,2,
1103,1118,1119,0,
1119,0,1120,2,
1117,1120,1121,0,
1114,0,1122,2,
1103,1122,1123,0,
1123,0,1124,2,
1121,1124,1125,0,
1125,35,1126,1,
1125,35,1127,0,
1126,1127,1128,1,
81,740,1129,1,
1129,0,1130,2,
731,1130,1131,1,
740,1131,1132,1,
1099,1132,1133,0,
740,1133,1134,1,
35,0,1135,2,
1134,1135,1136,0,
1136,0,1137,2,
1128,1137,1138,0,
1125,0,1139,2,
1134,1139,1140,0,
1140,0,1141,2,
1138,1141,1142,0,
1142,36,1143,1,
1142,36,1144,0,
1143,1144,1145,1,
381,757,1146,1,
1146,0,1147,2,
748,1147,1148,1,
757,1148,1149,1,
1099,1149,1150,0,
757,1150,1151,1,
36,0,1152,2,
1151,1152,1153,0,
1153,0,1154,2,
1145,1154,1155,0,
1142,0,1156,2,
1151,1156,1157,0,
1157,0,1158,2,
1155,1158,1159,0,
1159,37,1160,1,
1159,37,1161,0,
1160,1161,1162,1,
399,774,1163,1,
1163,0,1164,2,
765,1164,1165,1,
774,1165,1166,1,
1099,1166,1167,0,
774,1167,1168,1,
37,0,1169,2,
1168,1169,1170,0,
1170,0,1171,2,
1162,1171,1172,0,
1159,0,1173,2,
1168,1173,1174,0,
1174,0,1175,2,
1172,1175,1176,0,
1176,38,1177,1,
1176,38,1178,0,
1177,1178,1179,1,
417,791,1180,1,
1180,0,1181,2,
782,1181,1182,1,
791,1182,1183,1,
1099,1183,1184,0,
791,1184,1185,1,
38,0,1186,2,
1185,1186,1187,0,
1187,0,1188,2,
1179,1188,1189,0,
1176,0,1190,2,
1185,1190,1191,0,
1191,0,1192,2,
1189,1192,1193,0,
1193,39,1194,1,
1193,39,1195,0,
1194,1195,1196,1,
127,808,1197,1,
1197,0,1198,2,
799,1198,1199,1,
808,1199,1200,1,
1099,1200,1201,0,
808,1201,1202,1,
39,0,1203,2,
1202,1203,1204,0,
1204,0,1205,2,
1196,1205,1206,0,
1193,0,1207,2,
1202,1207,1208,0,
1208,0,1209,2,
1206,1209,1210,0,
1210,40,1211,1,
1210,40,1212,0,
1211,1212,1213,1,
452,825,1214,1,
1214,0,1215,2,
816,1215,1216,1,
825,1216,1217,1,
1099,1217,1218,0,
825,1218,1219,1,
40,0,1220,2,
1219,1220,1221,0,
1221,0,1222,2,
1213,1222,1223,0,
1210,0,1224,2,
1219,1224,1225,0,
1225,0,1226,2,
1223,1226,1227,0,
1227,41,1228,1,
1227,41,1229,0,
1228,1229,1230,1,
470,842,1231,1,
1231,0,1232,2,
833,1232,1233,1,
842,1233,1234,1,
1099,1234,1235,0,
842,1235,1236,1,
41,0,1237,2,
1236,1237,1238,0,
1238,0,1239,2,
1230,1239,1240,0,
1227,0,1241,2,
1236,1241,1242,0,
1242,0,1243,2,
1240,1243,1244,0,
1244,42,1245,1,
1244,42,1246,0,
1245,1246,1247,1,
488,859,1248,1,
1248,0,1249,2,
850,1249,1250,1,
859,1250,1251,1,
1099,1251,1252,0,
859,1252,1253,1,
42,0,1254,2,
1253,1254,1255,0,
1255,0,1256,2,
1247,1256,1257,0,
1244,0,1258,2,
1253,1258,1259,0,
1259,0,1260,2,
1257,1260,1261,0,
1261,43,1262,1,
1261,43,1263,0,
1262,1263,1264,1,
173,876,1265,1,
1265,0,1266,2,
867,1266,1267,1,
876,1267,1268,1,
1099,1268,1269,0,
876,1269,1270,1,
43,0,1271,2,
1270,1271,1272,0,
1272,0,1273,2,
1264,1273,1274,0,
1261,0,1275,2,
1270,1275,1276,0,
1276,0,1277,2,
1274,1277,1278,0,
1278,44,1279,1,
1278,44,1280,0,
1279,1280,1281,1,
523,893,1282,1,
1282,0,1283,2,
884,1283,1284,1,
893,1284,1285,1,
1099,1285,1286,0,
893,1286,1287,1,
44,0,1288,2,
1287,1288,1289,0,
1289,0,1290,2,
1281,1290,1291,0,
1278,0,1292,2,
1287,1292,1293,0,
1293,0,1294,2,
1291,1294,1295,0,
1295,45,1296,1,
1295,45,1297,0,
1296,1297,1298,1,
541,910,1299,1,
1299,0,1300,2,
901,1300,1301,1,
910,1301,1302,1,
1099,1302,1303,0,
910,1303,1304,1,
45,0,1305,2,
1304,1305,1306,0,
1306,0,1307,2,
1298,1307,1308,0,
1295,0,1309,2,
1304,1309,1310,0,
1310,0,1311,2,
1308,1311,1312,0,
1312,46,1313,1,
1312,46,1314,0,
1313,1314,1315,1,
559,927,1316,1,
1316,0,1317,2,
918,1317,1318,1,
927,1318,1319,1,
1099,1319,1320,0,
927,1320,1321,1,
46,0,1322,2,
1321,1322,1323,0,
1323,0,1324,2,
1315,1324,1325,0,
1312,0,1326,2,
1321,1326,1327,0,
1327,0,1328,2,
1325,1328,1329,0,
1329,47,1330,1,
1329,47,1331,0,
1330,1331,1332,1,
219,944,1333,1,
1333,0,1334,2,
935,1334,1335,1,
944,1335,1336,1,
1099,1336,1337,0,
944,1337,1338,1,
47,0,1339,2,
1338,1339,1340,0,
1340,0,1341,2,
1332,1341,1342,0,
1329,0,1343,2,
1338,1343,1344,0,
1344,0,1345,2,
1342,1345,1346,0,
1346,48,1347,1,
1346,48,1348,0,
1347,1348,1349,1,
594,961,1350,1,
1350,0,1351,2,
952,1351,1352,1,
961,1352,1353,1,
1099,1353,1354,0,
961,1354,1355,1,
48,0,1356,2,
1355,1356,1357,0,
1357,0,1358,2,
1349,1358,1359,0,
1346,0,1360,2,
1355,1360,1361,0,
1361,0,1362,2,
1359,1362,1363,0,
1363,49,1364,1,
1363,49,1365,0,
1364,1365,1366,1,
612,978,1367,1,
1367,0,1368,2,
969,1368,1369,1,
978,1369,1370,1,
1099,1370,1371,0,
978,1371,1372,1,
49,0,1373,2,
1372,1373,1374,0,
1374,0,1375,2,
1366,1375,1376,0,
1363,0,1377,2,
1372,1377,1378,0,
1378,0,1379,2,
1376,1379,1380,0,
1380,50,1381,1,
1380,50,1382,0,
1381,1382,1383,1,
630,995,1384,1,
1384,0,1385,2,
986,1385,1386,1,
995,1386,1387,1,
1099,1387,1388,0,
995,1388,1389,1,
50,0,1390,2,
1389,1390,1391,0,
1391,0,1392,2,
1383,1392,1393,0,
1380,0,1394,2,
1389,1394,1395,0,
1395,0,1396,2,
1393,1396,1397,0,
1397,51,1398,1,
1397,51,1399,0,
1398,1399,1400,1,
265,1012,1401,1,
1401,0,1402,2,
1003,1402,1403,1,
1012,1403,1404,1,
1099,1404,1405,0,
1012,1405,1406,1,
51,0,1407,2,
1406,1407,1408,0,
1408,0,1409,2,
1400,1409,1410,0,
1397,0,1411,2,
1406,1411,1412,0,
1412,0,1413,2,
1410,1413,1414,0,
1414,52,1415,1,
1414,52,1416,0,
1415,1416,1417,1,
665,1029,1418,1,
1418,0,1419,2,
1020,1419,1420,1,
1029,1420,1421,1,
1099,1421,1422,0,
1029,1422,1423,1,
52,0,1424,2,
1423,1424,1425,0,
1425,0,1426,2,
1417,1426,1427,0,
1414,0,1428,2,
1423,1428,1429,0,
1429,0,1430,2,
1427,1430,1431,0,
1431,53,1432,1,
1431,53,1433,0,
1432,1433,1434,1,
683,1046,1435,1,
1435,0,1436,2,
1037,1436,1437,1,
1046,1437,1438,1,
1099,1438,1439,0,
1046,1439,1440,1,
53,0,1441,2,
1440,1441,1442,0,
1442,0,1443,2,
1434,1443,1444,0,
1431,0,1445,2,
1440,1445,1446,0,
1446,0,1447,2,
1444,1447,1448,0,
1448,54,1449,1,
1448,54,1450,0,
1449,1450,1451,1,
701,1063,1452,1,
1452,0,1453,2,
1054,1453,1454,1,
1063,1454,1455,1,
1099,1455,1456,0,
1063,1456,1457,1,
54,0,1458,2,
1457,1458,1459,0,
1459,0,1460,2,
1451,1460,1461,0,
1448,0,1462,2,
1457,1462,1463,0,
1463,0,1464,2,
1461,1464,1465,0,
1465,0,1466,2,
1109,1466,1467,0,
1467,0,1468,2,
1088,727,1469,1,
1469,0,1470,2,
727,1470,1471,1,
1099,1471,1472,0,
727,1472,1473,1,
1473,0,1474,2,
1468,1474,1475,0,
1475,0,1476,2,
81,1103,1477,1,
1477,0,1478,2,
1114,1478,1479,1,
1103,1479,1480,1,
1476,1480,1481,0,
1103,1481,1482,1,
320,1457,1483,1,
1483,0,1484,2,
1448,1484,1485,1,
1457,1485,1486,1,
1476,1486,1487,0,
1457,1487,1488,1,
1476,32,1489,0,
33,0,1490,2,
1489,1490,1491,0,
1491,0,1492,2,
330,1492,1493,0,
1493,34,1494,1,
1493,34,1495,0,
1494,1495,1496,1,
1110,736,1497,1,
1110,1497,1498,1,
1476,1498,1499,0,
1110,1499,1500,1,
34,0,1501,2,
1500,1501,1502,0,
1502,0,1503,2,
1496,1503,1504,0,
1493,0,1505,2,
1500,1505,1506,0,
1506,0,1507,2,
1504,1507,1508,0,
1508,35,1509,1,
1508,35,1510,0,
1509,1510,1511,1,
35,0,1512,2,
1482,1512,1513,0,
1513,0,1514,2,
1511,1514,1515,0,
1508,0,1516,2,
1482,1516,1517,0,
1517,0,1518,2,
1515,1518,1519,0,
1519,36,1520,1,
1519,36,1521,0,
1520,1521,1522,1,
381,1134,1523,1,
1523,0,1524,2,
1125,1524,1525,1,
1134,1525,1526,1,
1476,1526,1527,0,
1134,1527,1528,1,
36,0,1529,2,
1528,1529,1530,0,
1530,0,1531,2,
1522,1531,1532,0,
1519,0,1533,2,
1528,1533,1534,0,
1534,0,1535,2,
1532,1535,1536,0,
1536,37,1537,1,
1536,37,1538,0,
1537,1538,1539,1,
399,1151,1540,1,
1540,0,1541,2,
1142,1541,1542,1,
1151,1542,1543,1,
1476,1543,1544,0,
1151,1544,1545,1,
37,0,1546,2,
1545,1546,1547,0,
1547,0,1548,2,
1539,1548,1549,0,
1536,0,1550,2,
1545,1550,1551,0,
1551,0,1552,2,
1549,1552,1553,0,
1553,38,1554,1,
1553,38,1555,0,
1554,1555,1556,1,
417,1168,1557,1,
1557,0,1558,2,
1159,1558,1559,1,
1168,1559,1560,1,
1476,1560,1561,0,
1168,1561,1562,1,
38,0,1563,2,
1562,1563,1564,0,
1564,0,1565,2,
1556,1565,1566,0,
1553,0,1567,2,
1562,1567,1568,0,
1568,0,1569,2,
1566,1569,1570,0,
1570,39,1571,1,
1570,39,1572,0,
1571,1572,1573,1,
127,1185,1574,1,
1574,0,1575,2,
1176,1575,1576,1,
1185,1576,1577,1,
1476,1577,1578,0,
1185,1578,1579,1,
39,0,1580,2,
1579,1580,1581,0,
1581,0,1582,2,
1573,1582,1583,0,
1570,0,1584,2,
1579,1584,1585,0,
1585,0,1586,2,
1583,1586,1587,0,
1587,40,1588,1,
1587,40,1589,0,
1588,1589,1590,1,
452,1202,1591,1,
1591,0,1592,2,
1193,1592,1593,1,
1202,1593,1594,1,
1476,1594,1595,0,
1202,1595,1596,1,
40,0,1597,2,
1596,1597,1598,0,
1598,0,1599,2,
1590,1599,1600,0,
1587,0,1601,2,
1596,1601,1602,0,
1602,0,1603,2,
1600,1603,1604,0,
1604,41,1605,1,
1604,41,1606,0,
1605,1606,1607,1,
470,1219,1608,1,
1608,0,1609,2,
1210,1609,1610,1,
1219,1610,1611,1,
1476,1611,1612,0,
1219,1612,1613,1,
41,0,1614,2,
1613,1614,1615,0,
1615,0,1616,2,
1607,1616,1617,0,
1604,0,1618,2,
1613,1618,1619,0,
1619,0,1620,2,
1617,1620,1621,0,
1621,42,1622,1,
1621,42,1623,0,
1622,1623,1624,1,
488,1236,1625,1,
1625,0,1626,2,
1227,1626,1627,1,
1236,1627,1628,1,
1476,1628,1629,0,
1236,1629,1630,1,
42,0,1631,2,
1630,1631,1632,0,
1632,0,1633,2,
1624,1633,1634,0,
1621,0,1635,2,
1630,1635,1636,0,
1636,0,1637,2,
1634,1637,1638,0,
1638,43,1639,1,
1638,43,1640,0,
1639,1640,1641,1,
173,1253,1642,1,
1642,0,1643,2,
1244,1643,1644,1,
1253,1644,1645,1,
1476,1645,1646,0,
1253,1646,1647,1,
43,0,1648,2,
1647,1648,1649,0,
1649,0,1650,2,
1641,1650,1651,0,
1638,0,1652,2,
1647,1652,1653,0,
1653,0,1654,2,
1651,1654,1655,0,
1655,44,1656,1,
1655,44,1657,0,
1656,1657,1658,1,
523,1270,1659,1,
1659,0,1660,2,
1261,1660,1661,1,
1270,1661,1662,1,
1476,1662,1663,0,
1270,1663,1664,1,
44,0,1665,2,
1664,1665,1666,0,
1666,0,1667,2,
1658,1667,1668,0,
1655,0,1669,2,
1664,1669,1670,0,
1670,0,1671,2,
1668,1671,1672,0,
1672,45,1673,1,
1672,45,1674,0,
1673,1674,1675,1,
541,1287,1676,1,
1676,0,1677,2,
1278,1677,1678,1,
1287,1678,1679,1,
1476,1679,1680,0,
1287,1680,1681,1,
45,0,1682,2,
1681,1682,1683,0,
1683,0,1684,2,
1675,1684,1685,0,
1672,0,1686,2,
1681,1686,1687,0,
1687,0,1688,2,
1685,1688,1689,0,
1689,46,1690,1,
1689,46,1691,0,
1690,1691,1692,1,
559,1304,1693,1,
1693,0,1694,2,
1295,1694,1695,1,
1304,1695,1696,1,
1476,1696,1697,0,
1304,1697,1698,1,
46,0,1699,2,
1698,1699,1700,0,
1700,0,1701,2,
1692,1701,1702,0,
1689,0,1703,2,
1698,1703,1704,0,
1704,0,1705,2,
1702,1705,1706,0,
1706,47,1707,1,
1706,47,1708,0,
1707,1708,1709,1,
219,1321,1710,1,
1710,0,1711,2,
1312,1711,1712,1,
1321,1712,1713,1,
1476,1713,1714,0,
1321,1714,1715,1,
47,0,1716,2,
1715,1716,1717,0,
1717,0,1718,2,
1709,1718,1719,0,
1706,0,1720,2,
1715,1720,1721,0,
1721,0,1722,2,
1719,1722,1723,0,
1723,48,1724,1,
1723,48,1725,0,
1724,1725,1726,1,
594,1338,1727,1,
1727,0,1728,2,
1329,1728,1729,1,
1338,1729,1730,1,
1476,1730,1731,0,
1338,1731,1732,1,
48,0,1733,2,
1732,1733,1734,0,
1734,0,1735,2,
1726,1735,1736,0,
1723,0,1737,2,
1732,1737,1738,0,
1738,0,1739,2,
1736,1739,1740,0,
1740,49,1741,1,
1740,49,1742,0,
1741,1742,1743,1,
612,1355,1744,1,
1744,0,1745,2,
1346,1745,1746,1,
1355,1746,1747,1,
1476,1747,1748,0,
1355,1748,1749,1,
49,0,1750,2,
1749,1750,1751,0,
1751,0,1752,2,
1743,1752,1753,0,
1740,0,1754,2,
1749,1754,1755,0,
1755,0,1756,2,
1753,1756,1757,0,
1757,50,1758,1,
1757,50,1759,0,
1758,1759,1760,1,
630,1372,1761,1,
1761,0,1762,2,
1363,1762,1763,1,
1372,1763,1764,1,
1476,1764,1765,0,
1372,1765,1766,1,
50,0,1767,2,
1766,1767,1768,0,
1768,0,1769,2,
1760,1769,1770,0,
1757,0,1771,2,
1766,1771,1772,0,
1772,0,1773,2,
1770,1773,1774,0,
1774,51,1775,1,
1774,51,1776,0,
1775,1776,1777,1,
265,1389,1778,1,
1778,0,1779,2,
1380,1779,1780,1,
1389,1780,1781,1,
1476,1781,1782,0,
1389,1782,1783,1,
51,0,1784,2,
1783,1784,1785,0,
1785,0,1786,2,
1777,1786,1787,0,
1774,0,1788,2,
1783,1788,1789,0,
1789,0,1790,2,
1787,1790,1791,0,
1791,52,1792,1,
1791,52,1793,0,
1792,1793,1794,1,
665,1406,1795,1,
1795,0,1796,2,
1397,1796,1797,1,
1406,1797,1798,1,
1476,1798,1799,0,
1406,1799,1800,1,
52,0,1801,2,
1800,1801,1802,0,
1802,0,1803,2,
1794,1803,1804,0,
1791,0,1805,2,
1800,1805,1806,0,
1806,0,1807,2,
1804,1807,1808,0,
1808,53,1809,1,
1808,53,1810,0,
1809,1810,1811,1,
683,1423,1812,1,
1812,0,1813,2,
1414,1813,1814,1,
1423,1814,1815,1,
1476,1815,1816,0,
1423,1816,1817,1,
53,0,1818,2,
1817,1818,1819,0,
1819,0,1820,2,
1811,1820,1821,0,
1808,0,1822,2,
1817,1822,1823,0,
1823,0,1824,2,
1821,1824,1825,0,
1825,54,1826,1,
1825,54,1827,0,
1826,1827,1828,1,
701,1440,1829,1,
1829,0,1830,2,
1431,1830,1831,1,
1440,1831,1832,1,
1476,1832,1833,0,
1440,1833,1834,1,
54,0,1835,2,
1834,1835,1836,0,
1836,0,1837,2,
1828,1837,1838,0,
1825,0,1839,2,
1834,1839,1840,0,
1840,0,1841,2,
1838,1841,1842,0,
1842,0,1843,2,
1488,1843,1844,0,
1844,0,1845,2,
1465,1109,1846,1,
1846,0,1847,2,
1109,1847,1848,1,
1476,1848,1849,0,
1109,1849,1850,1,
1850,0,1851,2,
1845,1851,1852,0,
1852,0,1853,2,
381,1482,1854,1,
1854,0,1855,2,
1508,1855,1856,1,
1482,1856,1857,1,
1853,1857,1858,0,
1482,1858,1859,1,
320,1834,1860,1,
1860,0,1861,2,
1825,1861,1862,1,
1834,1862,1863,1,
1853,1863,1864,0,
1834,1864,1865,1,
1853,32,1866,0,
33,0,1867,2,
1866,1867,1868,0,
1868,0,1869,2,
330,1869,1870,0,
1870,34,1871,1,
1870,34,1872,0,
1871,1872,1873,1,
1489,736,1874,1,
1489,1874,1875,1,
1853,1875,1876,0,
1489,1876,1877,1,
34,0,1878,2,
1877,1878,1879,0,
1879,0,1880,2,
1873,1880,1881,0,
1870,0,1882,2,
1877,1882,1883,0,
1883,0,1884,2,
1881,1884,1885,0,
1885,35,1886,1,
1885,35,1887,0,
1886,1887,1888,1,
81,1500,1889,1,
1889,0,1890,2,
1493,1890,1891,1,
1500,1891,1892,1,
1853,1892,1893,0,
1500,1893,1894,1,
35,0,1895,2,
1894,1895,1896,0,
1896,0,1897,2,
1888,1897,1898,0,
1885,0,1899,2,
1894,1899,1900,0,
1900,0,1901,2,
1898,1901,1902,0,
1902,36,1903,1,
1902,36,1904,0,
1903,1904,1905,1,
36,0,1906,2,
1859,1906,1907,0,
1907,0,1908,2,
1905,1908,1909,0,
1902,0,1910,2,
1859,1910,1911,0,
1911,0,1912,2,
1909,1912,1913,0,
1913,37,1914,1,
1913,37,1915,0,
1914,1915,1916,1,
399,1528,1917,1,
1917,0,1918,2,
1519,1918,1919,1,
1528,1919,1920,1,
1853,1920,1921,0,
1528,1921,1922,1,
37,0,1923,2,
1922,1923,1924,0,
1924,0,1925,2,
1916,1925,1926,0,
1913,0,1927,2,
1922,1927,1928,0,
1928,0,1929,2,
1926,1929,1930,0,
1930,38,1931,1,
1930,38,1932,0,
1931,1932,1933,1,
417,1545,1934,1,
1934,0,1935,2,
1536,1935,1936,1,
1545,1936,1937,1,
1853,1937,1938,0,
1545,1938,1939,1,
38,0,1940,2,
1939,1940,1941,0,
1941,0,1942,2,
1933,1942,1943,0,
1930,0,1944,2,
1939,1944,1945,0,
1945,0,1946,2,
1943,1946,1947,0,
1947,39,1948,1,
1947,39,1949,0,
1948,1949,1950,1,
127,1562,1951,1,
1951,0,1952,2,
1553,1952,1953,1,
1562,1953,1954,1,
1853,1954,1955,0,
1562,1955,1956,1,
39,0,1957,2,
1956,1957,1958,0,
1958,0,1959,2,
1950,1959,1960,0,
1947,0,1961,2,
1956,1961,1962,0,
1962,0,1963,2,
1960,1963,1964,0,
1964,40,1965,1,
1964,40,1966,0,
1965,1966,1967,1,
452,1579,1968,1,
1968,0,1969,2,
1570,1969,1970,1,
1579,1970,1971,1,
1853,1971,1972,0,
1579,1972,1973,1,
40,0,1974,2,
1973,1974,1975,0,
1975,0,1976,2,
1967,1976,1977,0,
1964,0,1978,2,
1973,1978,1979,0,
1979,0,1980,2,
1977,1980,1981,0,
1981,41,1982,1,
1981,41,1983,0,
1982,1983,1984,1,
470,1596,1985,1,
1985,0,1986,2,
1587,1986,1987,1,
1596,1987,1988,1,
1853,1988,1989,0,
1596,1989,1990,1,
41,0,1991,2,
1990,1991,1992,0,
1992,0,1993,2,
1984,1993,1994,0,
1981,0,1995,2,
1990,1995,1996,0,
1996,0,1997,2,
1994,1997,1998,0,
1998,42,1999,1,
1998,42,2000,0,
1999,2000,2001,1,
488,1613,2002,1,
2002,0,2003,2,
1604,2003,2004,1,
1613,2004,2005,1,
1853,2005,2006,0,
1613,2006,2007,1,
42,0,2008,2,
2007,2008,2009,0,
2009,0,2010,2,
2001,2010,2011,0,
1998,0,2012,2,
2007,2012,2013,0,
2013,0,2014,2,
2011,2014,2015,0,
2015,43,2016,1,
2015,43,2017,0,
2016,2017,2018,1,
173,1630,2019,1,
2019,0,2020,2,
1621,2020,2021,1,
1630,2021,2022,1,
1853,2022,2023,0,
1630,2023,2024,1,
43,0,2025,2,
2024,2025,2026,0,
2026,0,2027,2,
2018,2027,2028,0,
2015,0,2029,2,
2024,2029,2030,0,
2030,0,2031,2,
2028,2031,2032,0,
2032,44,2033,1,
2032,44,2034,0,
2033,2034,2035,1,
523,1647,2036,1,
2036,0,2037,2,
1638,2037,2038,1,
1647,2038,2039,1,
1853,2039,2040,0,
1647,2040,2041,1,
44,0,2042,2,
2041,2042,2043,0,
2043,0,2044,2,
2035,2044,2045,0,
2032,0,2046,2,
2041,2046,2047,0,
2047,0,2048,2,
2045,2048,2049,0,
2049,45,2050,1,
2049,45,2051,0,
2050,2051,2052,1,
541,1664,2053,1,
2053,0,2054,2,
1655,2054,2055,1,
1664,2055,2056,1,
1853,2056,2057,0,
1664,2057,2058,1,
45,0,2059,2,
2058,2059,2060,0,
2060,0,2061,2,
2052,2061,2062,0,
2049,0,2063,2,
2058,2063,2064,0,
2064,0,2065,2,
2062,2065,2066,0,
2066,46,2067,1,
2066,46,2068,0,
2067,2068,2069,1,
559,1681,2070,1,
2070,0,2071,2,
1672,2071,2072,1,
1681,2072,2073,1,
1853,2073,2074,0,
1681,2074,2075,1,
46,0,2076,2,
2075,2076,2077,0,
2077,0,2078,2,
2069,2078,2079,0,
2066,0,2080,2,
2075,2080,2081,0,
2081,0,2082,2,
2079,2082,2083,0,
2083,47,2084,1,
2083,47,2085,0,
2084,2085,2086,1,
219,1698,2087,1,
2087,0,2088,2,
1689,2088,2089,1,
1698,2089,2090,1,
1853,2090,2091,0,
1698,2091,2092,1,
47,0,2093,2,
2092,2093,2094,0,
2094,0,2095,2,
2086,2095,2096,0,
2083,0,2097,2,
2092,2097,2098,0,
2098,0,2099,2,
2096,2099,2100,0,
2100,48,2101,1,
2100,48,2102,0,
2101,2102,2103,1,
594,1715,2104,1,
2104,0,2105,2,
1706,2105,2106,1,
1715,2106,2107,1,
1853,2107,2108,0,
1715,2108,2109,1,
48,0,2110,2,
2109,2110,2111,0,
2111,0,2112,2,
2103,2112,2113,0,
2100,0,2114,2,
2109,2114,2115,0,
2115,0,2116,2,
2113,2116,2117,0,
2117,49,2118,1,
2117,49,2119,0,
2118,2119,2120,1,
612,1732,2121,1,
2121,0,2122,2,
1723,2122,2123,1,
1732,2123,2124,1,
1853,2124,2125,0,
1732,2125,2126,1,
49,0,2127,2,
2126,2127,2128,0,
2128,0,2129,2,
2120,2129,2130,0,
2117,0,2131,2,
2126,2131,2132,0,
2132,0,2133,2,
2130,2133,2134,0,
2134,50,2135,1,
2134,50,2136,0,
2135,2136,2137,1,
630,1749,2138,1,
2138,0,2139,2,
1740,2139,2140,1,
1749,2140,2141,1,
1853,2141,2142,0,
1749,2142,2143,1,
50,0,2144,2,
2143,2144,2145,0,
2145,0,2146,2,
2137,2146,2147,0,
2134,0,2148,2,
2143,2148,2149,0,
2149,0,2150,2,
2147,2150,2151,0,
2151,51,2152,1,
2151,51,2153,0,
2152,2153,2154,1,
265,1766,2155,1,
2155,0,2156,2,
1757,2156,2157,1,
1766,2157,2158,1,
1853,2158,2159,0,
1766,2159,2160,1,
51,0,2161,2,
2160,2161,2162,0,
2162,0,2163,2,
2154,2163,2164,0,
2151,0,2165,2,
2160,2165,2166,0,
2166,0,2167,2,
2164,2167,2168,0,
2168,52,2169,1,
2168,52,2170,0,
2169,2170,2171,1,
665,1783,2172,1,
2172,0,2173,2,
1774,2173,2174,1,
1783,2174,2175,1,
1853,2175,2176,0,
1783,2176,2177,1,
52,0,2178,2,
2177,2178,2179,0,
2179,0,2180,2,
2171,2180,2181,0,
2168,0,2182,2,
2177,2182,2183,0,
2183,0,2184,2,
2181,2184,2185,0,
2185,53,2186,1,
2185,53,2187,0,
2186,2187,2188,1,
683,1800,2189,1,
2189,0,2190,2,
1791,2190,2191,1,
1800,2191,2192,1,
1853,2192,2193,0,
1800,2193,2194,1,
53,0,2195,2,
2194,2195,2196,0,
2196,0,2197,2,
2188,2197,2198,0,
2185,0,2199,2,
2194,2199,2200,0,
2200,0,2201,2,
2198,2201,2202,0,
2202,54,2203,1,
2202,54,2204,0,
2203,2204,2205,1,
701,1817,2206,1,
2206,0,2207,2,
1808,2207,2208,1,
1817,2208,2209,1,
1853,2209,2210,0,
1817,2210,2211,1,
54,0,2212,2,
2211,2212,2213,0,
2213,0,2214,2,
2205,2214,2215,0,
2202,0,2216,2,
2211,2216,2217,0,
2217,0,2218,2,
2215,2218,2219,0,
2219,0,2220,2,
1865,2220,2221,0,
2221,0,2222,2,
1842,1488,2223,1,
2223,0,2224,2,
1488,2224,2225,1,
1853,2225,2226,0,
1488,2226,2227,1,
2227,0,2228,2,
2222,2228,2229,0,
2229,0,2230,2,
399,1859,2231,1,
2231,0,2232,2,
1902,2232,2233,1,
1859,2233,2234,1,
2230,2234,2235,0,
1859,2235,2236,1,
320,2211,2237,1,
2237,0,2238,2,
2202,2238,2239,1,
2211,2239,2240,1,
2230,2240,2241,0,
2211,2241,2242,1,
2230,32,2243,0,
33,0,2244,2,
2243,2244,2245,0,
2245,0,2246,2,
330,2246,2247,0,
2247,34,2248,1,
2247,34,2249,0,
2248,2249,2250,1,
1866,736,2251,1,
1866,2251,2252,1,
2230,2252,2253,0,
1866,2253,2254,1,
34,0,2255,2,
2254,2255,2256,0,
2256,0,2257,2,
2250,2257,2258,0,
2247,0,2259,2,
2254,2259,2260,0,
2260,0,2261,2,
2258,2261,2262,0,
2262,35,2263,1,
2262,35,2264,0,
2263,2264,2265,1,
81,1877,2266,1,
2266,0,2267,2,
1870,2267,2268,1,
1877,2268,2269,1,
2230,2269,2270,0,
1877,2270,2271,1,
35,0,2272,2,
2271,2272,2273,0,
2273,0,2274,2,
2265,2274,2275,0,
2262,0,2276,2,
2271,2276,2277,0,
2277,0,2278,2,
2275,2278,2279,0,
2279,36,2280,1,
2279,36,2281,0,
2280,2281,2282,1,
381,1894,2283,1,
2283,0,2284,2,
1885,2284,2285,1,
1894,2285,2286,1,
2230,2286,2287,0,
1894,2287,2288,1,
36,0,2289,2,
2288,2289,2290,0,
2290,0,2291,2,
2282,2291,2292,0,
2279,0,2293,2,
2288,2293,2294,0,
2294,0,2295,2,
2292,2295,2296,0,
2296,37,2297,1,
2296,37,2298,0,
2297,2298,2299,1,
37,0,2300,2,
2236,2300,2301,0,
2301,0,2302,2,
2299,2302,2303,0,
2296,0,2304,2,
2236,2304,2305,0,
2305,0,2306,2,
2303,2306,2307,0,
2307,38,2308,1,
2307,38,2309,0,
2308,2309,2310,1,
417,1922,2311,1,
2311,0,2312,2,
1913,2312,2313,1,
1922,2313,2314,1,
2230,2314,2315,0,
1922,2315,2316,1,
38,0,2317,2,
2316,2317,2318,0,
2318,0,2319,2,
2310,2319,2320,0,
2307,0,2321,2,
2316,2321,2322,0,
2322,0,2323,2,
2320,2323,2324,0,
2324,39,2325,1,
2324,39,2326,0,
2325,2326,2327,1,
127,1939,2328,1,
2328,0,2329,2,
1930,2329,2330,1,
1939,2330,2331,1,
2230,2331,2332,0,
1939,2332,2333,1,
39,0,2334,2,
2333,2334,2335,0,
2335,0,2336,2,
2327,2336,2337,0,
2324,0,2338,2,
2333,2338,2339,0,
2339,0,2340,2,
2337,2340,2341,0,
2341,40,2342,1,
2341,40,2343,0,
2342,2343,2344,1,
452,1956,2345,1,
2345,0,2346,2,
1947,2346,2347,1,
1956,2347,2348,1,
2230,2348,2349,0,
1956,2349,2350,1,
40,0,2351,2,
2350,2351,2352,0,
2352,0,2353,2,
2344,2353,2354,0,
2341,0,2355,2,
2350,2355,2356,0,
2356,0,2357,2,
2354,2357,2358,0,
2358,41,2359,1,
2358,41,2360,0,
2359,2360,2361,1,
470,1973,2362,1,
2362,0,2363,2,
1964,2363,2364,1,
1973,2364,2365,1,
2230,2365,2366,0,
1973,2366,2367,1,
41,0,2368,2,
2367,2368,2369,0,
2369,0,2370,2,
2361,2370,2371,0,
2358,0,2372,2,
2367,2372,2373,0,
2373,0,2374,2,
2371,2374,2375,0,
2375,42,2376,1,
2375,42,2377,0,
2376,2377,2378,1,
488,1990,2379,1,
2379,0,2380,2,
1981,2380,2381,1,
1990,2381,2382,1,
2230,2382,2383,0,
1990,2383,2384,1,
42,0,2385,2,
2384,2385,2386,0,
2386,0,2387,2,
2378,2387,2388,0,
2375,0,2389,2,
2384,2389,2390,0,
2390,0,2391,2,
2388,2391,2392,0,
2392,43,2393,1,
2392,43,2394,0,
2393,2394,2395,1,
173,2007,2396,1,
2396,0,2397,2,
1998,2397,2398,1,
2007,2398,2399,1,
2230,2399,2400,0,
2007,2400,2401,1,
43,0,2402,2,
2401,2402,2403,0,
2403,0,2404,2,
2395,2404,2405,0,
2392,0,2406,2,
2401,2406,2407,0,
2407,0,2408,2,
2405,2408,2409,0,
2409,44,2410,1,
2409,44,2411,0,
2410,2411,2412,1,
523,2024,2413,1,
2413,0,2414,2,
2015,2414,2415,1,
2024,2415,2416,1,
2230,2416,2417,0,
2024,2417,2418,1,
44,0,2419,2,
2418,2419,2420,0,
2420,0,2421,2,
2412,2421,2422,0,
2409,0,2423,2,
2418,2423,2424,0,
2424,0,2425,2,
2422,2425,2426,0,
2426,45,2427,1,
2426,45,2428,0,
2427,2428,2429,1,
541,2041,2430,1,
2430,0,2431,2,
2032,2431,2432,1,
2041,2432,2433,1,
2230,2433,2434,0,
2041,2434,2435,1,
45,0,2436,2,
2435,2436,2437,0,
2437,0,2438,2,
2429,2438,2439,0,
2426,0,2440,2,
2435,2440,2441,0,
2441,0,2442,2,
2439,2442,2443,0,
2443,46,2444,1,
2443,46,2445,0,
2444,2445,2446,1,
559,2058,2447,1,
2447,0,2448,2,
2049,2448,2449,1,
2058,2449,2450,1,
2230,2450,2451,0,
2058,2451,2452,1,
46,0,2453,2,
2452,2453,2454,0,
2454,0,2455,2,
2446,2455,2456,0,
2443,0,2457,2,
2452,2457,2458,0,
2458,0,2459,2,
2456,2459,2460,0,
2460,47,2461,1,
2460,47,2462,0,
2461,2462,2463,1,
219,2075,2464,1,
2464,0,2465,2,
2066,2465,2466,1,
2075,2466,2467,1,
2230,2467,2468,0,
2075,2468,2469,1,
47,0,2470,2,
2469,2470,2471,0,
2471,0,2472,2,
2463,2472,2473,0,
2460,0,2474,2,
2469,2474,2475,0,
2475,0,2476,2,
2473,2476,2477,0,
2477,48,2478,1,
2477,48,2479,0,
2478,2479,2480,1,
594,2092,2481,1,
2481,0,2482,2,
2083,2482,2483,1,
2092,2483,2484,1,
2230,2484,2485,0,
2092,2485,2486,1,
48,0,2487,2,
2486,2487,2488,0,
2488,0,2489,2,
2480,2489,2490,0,
2477,0,2491,2,
2486,2491,2492,0,
2492,0,2493,2,
2490,2493,2494,0,
2494,49,2495,1,
2494,49,2496,0,
2495,2496,2497,1,
612,2109,2498,1,
2498,0,2499,2,
2100,2499,2500,1,
2109,2500,2501,1,
2230,2501,2502,0,
2109,2502,2503,1,
49,0,2504,2,
2503,2504,2505,0,
2505,0,2506,2,
2497,2506,2507,0,
2494,0,2508,2,
2503,2508,2509,0,
2509,0,2510,2,
2507,2510,2511,0,
2511,50,2512,1,
2511,50,2513,0,
2512,2513,2514,1,
630,2126,2515,1,
2515,0,2516,2,
2117,2516,2517,1,
2126,2517,2518,1,
2230,2518,2519,0,
2126,2519,2520,1,
50,0,2521,2,
2520,2521,2522,0,
2522,0,2523,2,
2514,2523,2524,0,
2511,0,2525,2,
2520,2525,2526,0,
2526,0,2527,2,
2524,2527,2528,0,
2528,51,2529,1,
2528,51,2530,0,
2529,2530,2531,1,
265,2143,2532,1,
2532,0,2533,2,
2134,2533,2534,1,
2143,2534,2535,1,
2230,2535,2536,0,
2143,2536,2537,1,
51,0,2538,2,
2537,2538,2539,0,
2539,0,2540,2,
2531,2540,2541,0,
2528,0,2542,2,
2537,2542,2543,0,
2543,0,2544,2,
2541,2544,2545,0,
2545,52,2546,1,
2545,52,2547,0,
2546,2547,2548,1,
665,2160,2549,1,
2549,0,2550,2,
2151,2550,2551,1,
2160,2551,2552,1,
2230,2552,2553,0,
2160,2553,2554,1,
52,0,2555,2,
2554,2555,2556,0,
2556,0,2557,2,
2548,2557,2558,0,
2545,0,2559,2,
2554,2559,2560,0,
2560,0,2561,2,
2558,2561,2562,0,
2562,53,2563,1,
2562,53,2564,0,
2563,2564,2565,1,
683,2177,2566,1,
2566,0,2567,2,
2168,2567,2568,1,
2177,2568,2569,1,
2230,2569,2570,0,
2177,2570,2571,1,
53,0,2572,2,
2571,2572,2573,0,
2573,0,2574,2,
2565,2574,2575,0,
2562,0,2576,2,
2571,2576,2577,0,
2577,0,2578,2,
2575,2578,2579,0,
2579,54,2580,1,
2579,54,2581,0,
2580,2581,2582,1,
701,2194,2583,1,
2583,0,2584,2,
2185,2584,2585,1,
2194,2585,2586,1,
2230,2586,2587,0,
2194,2587,2588,1,
54,0,2589,2,
2588,2589,2590,0,
2590,0,2591,2,
2582,2591,2592,0,
2579,0,2593,2,
2588,2593,2594,0,
2594,0,2595,2,
2592,2595,2596,0,
2596,0,2597,2,
2242,2597,2598,0,
2598,0,2599,2,
2219,1865,2600,1,
2600,0,2601,2,
1865,2601,2602,1,
2230,2602,2603,0,
1865,2603,2604,1,
2604,0,2605,2,
2599,2605,2606,0,
2606,0,2607,2,
417,2236,2608,1,
2608,0,2609,2,
2296,2609,2610,1,
2236,2610,2611,1,
2607,2611,2612,0,
2236,2612,2613,1,
320,2588,2614,1,
2614,0,2615,2,
2579,2615,2616,1,
2588,2616,2617,1,
2607,2617,2618,0,
2588,2618,2619,1,
2607,32,2620,0,
33,0,2621,2,
2620,2621,2622,0,
2622,0,2623,2,
330,2623,2624,0,
32,0,2625,2,
2620,2625,2626,0,
2626,0,2627,2,
2624,2627,2628,0,
2628,34,2629,1,
2628,34,2630,0,
2629,2630,2631,1,
2243,736,2632,1,
2243,2632,2633,1,
2607,2633,2634,0,
2243,2634,2635,1,
34,0,2636,2,
2635,2636,2637,0,
2637,0,2638,2,
2631,2638,2639,0,
2628,0,2640,2,
2635,2640,2641,0,
2641,0,2642,2,
2639,2642,2643,0,
2643,35,2644,1,
2643,35,2645,0,
2644,2645,2646,1,
81,2254,2647,1,
2647,0,2648,2,
2247,2648,2649,1,
2254,2649,2650,1,
2607,2650,2651,0,
2254,2651,2652,1,
35,0,2653,2,
2652,2653,2654,0,
2654,0,2655,2,
2646,2655,2656,0,
2643,0,2657,2,
2652,2657,2658,0,
2658,0,2659,2,
2656,2659,2660,0,
2660,36,2661,1,
2660,36,2662,0,
2661,2662,2663,1,
381,2271,2664,1,
2664,0,2665,2,
2262,2665,2666,1,
2271,2666,2667,1,
2607,2667,2668,0,
2271,2668,2669,1,
36,0,2670,2,
2669,2670,2671,0,
2671,0,2672,2,
2663,2672,2673,0,
2660,0,2674,2,
2669,2674,2675,0,
2675,0,2676,2,
2673,2676,2677,0,
2677,37,2678,1,
2677,37,2679,0,
2678,2679,2680,1,
399,2288,2681,1,
2681,0,2682,2,
2279,2682,2683,1,
2288,2683,2684,1,
2607,2684,2685,0,
2288,2685,2686,1,
37,0,2687,2,
2686,2687,2688,0,
2688,0,2689,2,
2680,2689,2690,0,
2677,0,2691,2,
2686,2691,2692,0,
2692,0,2693,2,
2690,2693,2694,0,
2694,38,2695,1,
2694,38,2696,0,
2695,2696,2697,1,
38,0,2698,2,
2613,2698,2699,0,
2699,0,2700,2,
2697,2700,2701,0,
2694,0,2702,2,
2613,2702,2703,0,
2703,0,2704,2,
2701,2704,2705,0,
2705,39,2706,1,
2705,39,2707,0,
2706,2707,2708,1,
127,2316,2709,1,
2709,0,2710,2,
2307,2710,2711,1,
2316,2711,2712,1,
2607,2712,2713,0,
2316,2713,2714,1,
39,0,2715,2,
2714,2715,2716,0,
2716,0,2717,2,
2708,2717,2718,0,
2705,0,2719,2,
2714,2719,2720,0,
2720,0,2721,2,
2718,2721,2722,0,
2722,40,2723,1,
2722,40,2724,0,
2723,2724,2725,1,
452,2333,2726,1,
2726,0,2727,2,
2324,2727,2728,1,
2333,2728,2729,1,
2607,2729,2730,0,
2333,2730,2731,1,
40,0,2732,2,
2731,2732,2733,0,
2733,0,2734,2,
2725,2734,2735,0,
2722,0,2736,2,
2731,2736,2737,0,
2737,0,2738,2,
2735,2738,2739,0,
2739,41,2740,1,
2739,41,2741,0,
2740,2741,2742,1,
470,2350,2743,1,
2743,0,2744,2,
2341,2744,2745,1,
2350,2745,2746,1,
2607,2746,2747,0,
2350,2747,2748,1,
41,0,2749,2,
2748,2749,2750,0,
2750,0,2751,2,
2742,2751,2752,0,
2739,0,2753,2,
2748,2753,2754,0,
2754,0,2755,2,
2752,2755,2756,0,
2756,42,2757,1,
2756,42,2758,0,
2757,2758,2759,1,
488,2367,2760,1,
2760,0,2761,2,
2358,2761,2762,1,
2367,2762,2763,1,
2607,2763,2764,0,
2367,2764,2765,1,
42,0,2766,2,
2765,2766,2767,0,
2767,0,2768,2,
2759,2768,2769,0,
2756,0,2770,2,
2765,2770,2771,0,
2771,0,2772,2,
2769,2772,2773,0,
2773,43,2774,1,
2773,43,2775,0,
2774,2775,2776,1,
173,2384,2777,1,
2777,0,2778,2,
2375,2778,2779,1,
2384,2779,2780,1,
2607,2780,2781,0,
2384,2781,2782,1,
43,0,2783,2,
2782,2783,2784,0,
2784,0,2785,2,
2776,2785,2786,0,
2773,0,2787,2,
2782,2787,2788,0,
2788,0,2789,2,
2786,2789,2790,0,
2790,44,2791,1,
2790,44,2792,0,
2791,2792,2793,1,
523,2401,2794,1,
2794,0,2795,2,
2392,2795,2796,1,
2401,2796,2797,1,
2607,2797,2798,0,
2401,2798,2799,1,
44,0,2800,2,
2799,2800,2801,0,
2801,0,2802,2,
2793,2802,2803,0,
2790,0,2804,2,
2799,2804,2805,0,
2805,0,2806,2,
2803,2806,2807,0,
2807,45,2808,1,
2807,45,2809,0,
2808,2809,2810,1,
541,2418,2811,1,
2811,0,2812,2,
2409,2812,2813,1,
2418,2813,2814,1,
2607,2814,2815,0,
2418,2815,2816,1,
45,0,2817,2,
2816,2817,2818,0,
2818,0,2819,2,
2810,2819,2820,0,
2807,0,2821,2,
2816,2821,2822,0,
2822,0,2823,2,
2820,2823,2824,0,
2824,46,2825,1,
2824,46,2826,0,
2825,2826,2827,1,
559,2435,2828,1,
2828,0,2829,2,
2426,2829,2830,1,
2435,2830,2831,1,
2607,2831,2832,0,
2435,2832,2833,1,
46,0,2834,2,
2833,2834,2835,0,
2835,0,2836,2,
2827,2836,2837,0,
2824,0,2838,2,
2833,2838,2839,0,
2839,0,2840,2,
2837,2840,2841,0,
2841,47,2842,1,
2841,47,2843,0,
2842,2843,2844,1,
219,2452,2845,1,
2845,0,2846,2,
2443,2846,2847,1,
2452,2847,2848,1,
2607,2848,2849,0,
2452,2849,2850,1,
47,0,2851,2,
2850,2851,2852,0,
2852,0,2853,2,
2844,2853,2854,0,
2841,0,2855,2,
2850,2855,2856,0,
2856,0,2857,2,
2854,2857,2858,0,
2858,48,2859,1,
2858,48,2860,0,
2859,2860,2861,1,
594,2469,2862,1,
2862,0,2863,2,
2460,2863,2864,1,
2469,2864,2865,1,
2607,2865,2866,0,
2469,2866,2867,1,
48,0,2868,2,
2867,2868,2869,0,
2869,0,2870,2,
2861,2870,2871,0,
2858,0,2872,2,
2867,2872,2873,0,
2873,0,2874,2,
2871,2874,2875,0,
2875,49,2876,1,
2875,49,2877,0,
2876,2877,2878,1,
612,2486,2879,1,
2879,0,2880,2,
2477,2880,2881,1,
2486,2881,2882,1,
2607,2882,2883,0,
2486,2883,2884,1,
49,0,2885,2,
2884,2885,2886,0,
2886,0,2887,2,
2878,2887,2888,0,
2875,0,2889,2,
2884,2889,2890,0,
2890,0,2891,2,
2888,2891,2892,0,
2892,50,2893,1,
2892,50,2894,0,
2893,2894,2895,1,
630,2503,2896,1,
2896,0,2897,2,
2494,2897,2898,1,
2503,2898,2899,1,
2607,2899,2900,0,
2503,2900,2901,1,
50,0,2902,2,
2901,2902,2903,0,
2903,0,2904,2,
2895,2904,2905,0,
2892,0,2906,2,
2901,2906,2907,0,
2907,0,2908,2,
2905,2908,2909,0,
2909,51,2910,1,
2909,51,2911,0,
2910,2911,2912,1,
265,2520,2913,1,
2913,0,2914,2,
2511,2914,2915,1,
2520,2915,2916,1,
2607,2916,2917,0,
2520,2917,2918,1,
51,0,2919,2,
2918,2919,2920,0,
2920,0,2921,2,
2912,2921,2922,0,
2909,0,2923,2,
2918,2923,2924,0,
2924,0,2925,2,
2922,2925,2926,0,
2926,52,2927,1,
2926,52,2928,0,
2927,2928,2929,1,
665,2537,2930,1,
2930,0,2931,2,
2528,2931,2932,1,
2537,2932,2933,1,
2607,2933,2934,0,
2537,2934,2935,1,
52,0,2936,2,
2935,2936,2937,0,
2937,0,2938,2,
2929,2938,2939,0,
2926,0,2940,2,
2935,2940,2941,0,
2941,0,2942,2,
2939,2942,2943,0,
2943,53,2944,1,
2943,53,2945,0,
2944,2945,2946,1,
683,2554,2947,1,
2947,0,2948,2,
2545,2948,2949,1,
2554,2949,2950,1,
2607,2950,2951,0,
2554,2951,2952,1,
53,0,2953,2,
2952,2953,2954,0,
2954,0,2955,2,
2946,2955,2956,0,
2943,0,2957,2,
2952,2957,2958,0,
2958,0,2959,2,
2956,2959,2960,0,
2960,54,2961,1,
2960,54,2962,0,
2961,2962,2963,1,
701,2571,2964,1,
2964,0,2965,2,
2562,2965,2966,1,
2571,2966,2967,1,
2607,2967,2968,0,
2571,2968,2969,1,
54,0,2970,2,
2969,2970,2971,0,
2971,0,2972,2,
2963,2972,2973,0,
2960,0,2974,2,
2969,2974,2975,0,
2975,0,2976,2,
2973,2976,2977,0,
2977,0,2978,2,
2619,2978,2979,0,
2979,0,2980,2,
2596,2242,2981,1,
2981,0,2982,2,
2242,2982,2983,1,
2607,2983,2984,0,
2242,2984,2985,1,
2985,0,2986,2,
2980,2986,2987,0,
2987,0,2988,2,
127,2613,2989,1,
2989,0,2990,2,
2694,2990,2991,1,
2613,2991,2992,1,
2988,2992,2993,0,
2613,2993,2994,1,
320,2969,2995,1,
2995,0,2996,2,
2960,2996,2997,1,
2969,2997,2998,1,
2988,2998,2999,0,
2969,2999,3000,1,
2988,32,3001,0,
33,0,3002,2,
3001,3002,3003,0,
3003,0,3004,2,
330,3004,3005,0,
32,0,3006,2,
3001,3006,3007,0,
3007,0,3008,2,
3005,3008,3009,0,
3009,34,3010,1,
3009,34,3011,0,
3010,3011,3012,1,
2620,736,3013,1,
2620,3013,3014,1,
2988,3014,3015,0,
2620,3015,3016,1,
34,0,3017,2,
3016,3017,3018,0,
3018,0,3019,2,
3012,3019,3020,0,
3009,0,3021,2,
3016,3021,3022,0,
3022,0,3023,2,
3020,3023,3024,0,
3024,35,3025,1,
3024,35,3026,0,
3025,3026,3027,1,
81,2635,3028,1,
3028,0,3029,2,
2628,3029,3030,1,
2635,3030,3031,1,
2988,3031,3032,0,
2635,3032,3033,1,
35,0,3034,2,
3033,3034,3035,0,
3035,0,3036,2,
3027,3036,3037,0,
3024,0,3038,2,
3033,3038,3039,0,
3039,0,3040,2,
3037,3040,3041,0,
3041,36,3042,1,
3041,36,3043,0,
3042,3043,3044,1,
381,2652,3045,1,
3045,0,3046,2,
2643,3046,3047,1,
2652,3047,3048,1,
2988,3048,3049,0,
2652,3049,3050,1,
36,0,3051,2,
3050,3051,3052,0,
3052,0,3053,2,
3044,3053,3054,0,
3041,0,3055,2,
3050,3055,3056,0,
3056,0,3057,2,
3054,3057,3058,0,
3058,37,3059,1,
3058,37,3060,0,
3059,3060,3061,1,
399,2669,3062,1,
3062,0,3063,2,
2660,3063,3064,1,
2669,3064,3065,1,
2988,3065,3066,0,
2669,3066,3067,1,
37,0,3068,2,
3067,3068,3069,0,
3069,0,3070,2,
3061,3070,3071,0,
3058,0,3072,2,
3067,3072,3073,0,
3073,0,3074,2,
3071,3074,3075,0,
3075,38,3076,1,
3075,38,3077,0,
3076,3077,3078,1,
417,2686,3079,1,
3079,0,3080,2,
2677,3080,3081,1,
2686,3081,3082,1,
2988,3082,3083,0,
2686,3083,3084,1,
38,0,3085,2,
3084,3085,3086,0,
3086,0,3087,2,
3078,3087,3088,0,
3075,0,3089,2,
3084,3089,3090,0,
3090,0,3091,2,
3088,3091,3092,0,
3092,39,3093,1,
3092,39,3094,0,
3093,3094,3095,1,
39,0,3096,2,
2994,3096,3097,0,
3097,0,3098,2,
3095,3098,3099,0,
3092,0,3100,2,
2994,3100,3101,0,
3101,0,3102,2,
3099,3102,3103,0,
3103,40,3104,1,
3103,40,3105,0,
3104,3105,3106,1,
452,2714,3107,1,
3107,0,3108,2,
2705,3108,3109,1,
2714,3109,3110,1,
2988,3110,3111,0,
2714,3111,3112,1,
40,0,3113,2,
3112,3113,3114,0,
3114,0,3115,2,
3106,3115,3116,0,
3103,0,3117,2,
3112,3117,3118,0,
3118,0,3119,2,
3116,3119,3120,0,
3120,41,3121,1,
3120,41,3122,0,
3121,3122,3123,1,
470,2731,3124,1,
3124,0,3125,2,
2722,3125,3126,1,
2731,3126,3127,1,
2988,3127,3128,0,
2731,3128,3129,1,
41,0,3130,2,
3129,3130,3131,0,
3131,0,3132,2,
3123,3132,3133,0,
3120,0,3134,2,
3129,3134,3135,0,
3135,0,3136,2,
3133,3136,3137,0,
3137,42,3138,1,
3137,42,3139,0,
3138,3139,3140,1,
488,2748,3141,1,
3141,0,3142,2,
2739,3142,3143,1,
2748,3143,3144,1,
2988,3144,3145,0,
2748,3145,3146,1,
42,0,3147,2,
3146,3147,3148,0,
3148,0,3149,2,
3140,3149,3150,0,
3137,0,3151,2,
3146,3151,3152,0,
3152,0,3153,2,
3150,3153,3154,0,
3154,43,3155,1,
3154,43,3156,0,
3155,3156,3157,1,
173,2765,3158,1,
3158,0,3159,2,
2756,3159,3160,1,
2765,3160,3161,1,
2988,3161,3162,0,
2765,3162,3163,1,
43,0,3164,2,
3163,3164,3165,0,
3165,0,3166,2,
3157,3166,3167,0,
3154,0,3168,2,
3163,3168,3169,0,
3169,0,3170,2,
3167,3170,3171,0,
3171,44,3172,1,
3171,44,3173,0,
3172,3173,3174,1,
523,2782,3175,1,
3175,0,3176,2,
2773,3176,3177,1,
2782,3177,3178,1,
2988,3178,3179,0,
2782,3179,3180,1,
44,0,3181,2,
3180,3181,3182,0,
3182,0,3183,2,
3174,3183,3184,0,
3171,0,3185,2,
3180,3185,3186,0,
3186,0,3187,2,
3184,3187,3188,0,
3188,45,3189,1,
3188,45,3190,0,
3189,3190,3191,1,
541,2799,3192,1,
3192,0,3193,2,
2790,3193,3194,1,
2799,3194,3195,1,
2988,3195,3196,0,
2799,3196,3197,1,
45,0,3198,2,
3197,3198,3199,0,
3199,0,3200,2,
3191,3200,3201,0,
3188,0,3202,2,
3197,3202,3203,0,
3203,0,3204,2,
3201,3204,3205,0,
3205,46,3206,1,
3205,46,3207,0,
3206,3207,3208,1,
559,2816,3209,1,
3209,0,3210,2,
2807,3210,3211,1,
2816,3211,3212,1,
2988,3212,3213,0,
2816,3213,3214,1,
46,0,3215,2,
3214,3215,3216,0,
3216,0,3217,2,
3208,3217,3218,0,
3205,0,3219,2,
3214,3219,3220,0,
3220,0,3221,2,
3218,3221,3222,0,
3222,47,3223,1,
3222,47,3224,0,
3223,3224,3225,1,
219,2833,3226,1,
3226,0,3227,2,
2824,3227,3228,1,
2833,3228,3229,1,
2988,3229,3230,0,
2833,3230,3231,1,
47,0,3232,2,
3231,3232,3233,0,
3233,0,3234,2,
3225,3234,3235,0,
3222,0,3236,2,
3231,3236,3237,0,
3237,0,3238,2,
3235,3238,3239,0,
3239,48,3240,1,
3239,48,3241,0,
3240,3241,3242,1,
594,2850,3243,1,
3243,0,3244,2,
2841,3244,3245,1,
2850,3245,3246,1,
2988,3246,3247,0,
2850,3247,3248,1,
48,0,3249,2,
3248,3249,3250,0,
3250,0,3251,2,
3242,3251,3252,0,
3239,0,3253,2,
3248,3253,3254,0,
3254,0,3255,2,
3252,3255,3256,0,
3256,49,3257,1,
3256,49,3258,0,
3257,3258,3259,1,
612,2867,3260,1,
3260,0,3261,2,
2858,3261,3262,1,
2867,3262,3263,1,
2988,3263,3264,0,
2867,3264,3265,1,
49,0,3266,2,
3265,3266,3267,0,
3267,0,3268,2,
3259,3268,3269,0,
3256,0,3270,2,
3265,3270,3271,0,
3271,0,3272,2,
3269,3272,3273,0,
3273,50,3274,1,
3273,50,3275,0,
3274,3275,3276,1,
630,2884,3277,1,
3277,0,3278,2,
2875,3278,3279,1,
2884,3279,3280,1,
2988,3280,3281,0,
2884,3281,3282,1,
50,0,3283,2,
3282,3283,3284,0,
3284,0,3285,2,
3276,3285,3286,0,
3273,0,3287,2,
3282,3287,3288,0,
3288,0,3289,2,
3286,3289,3290,0,
3290,51,3291,1,
3290,51,3292,0,
3291,3292,3293,1,
265,2901,3294,1,
3294,0,3295,2,
2892,3295,3296,1,
2901,3296,3297,1,
2988,3297,3298,0,
2901,3298,3299,1,
51,0,3300,2,
3299,3300,3301,0,
3301,0,3302,2,
3293,3302,3303,0,
3290,0,3304,2,
3299,3304,3305,0,
3305,0,3306,2,
3303,3306,3307,0,
3307,52,3308,1,
3307,52,3309,0,
3308,3309,3310,1,
665,2918,3311,1,
3311,0,3312,2,
2909,3312,3313,1,
2918,3313,3314,1,
2988,3314,3315,0,
2918,3315,3316,1,
52,0,3317,2,
3316,3317,3318,0,
3318,0,3319,2,
3310,3319,3320,0,
3307,0,3321,2,
3316,3321,3322,0,
3322,0,3323,2,
3320,3323,3324,0,
3324,53,3325,1,
3324,53,3326,0,
3325,3326,3327,1,
683,2935,3328,1,
3328,0,3329,2,
2926,3329,3330,1,
2935,3330,3331,1,
2988,3331,3332,0,
2935,3332,3333,1,
53,0,3334,2,
3333,3334,3335,0,
3335,0,3336,2,
3327,3336,3337,0,
3324,0,3338,2,
3333,3338,3339,0,
3339,0,3340,2,
3337,3340,3341,0,
3341,54,3342,1,
3341,54,3343,0,
3342,3343,3344,1,
701,2952,3345,1,
3345,0,3346,2,
2943,3346,3347,1,
2952,3347,3348,1,
2988,3348,3349,0,
2952,3349,3350,1,
54,0,3351,2,
3350,3351,3352,0,
3352,0,3353,2,
3344,3353,3354,0,
3341,0,3355,2,
3350,3355,3356,0,
3356,0,3357,2,
3354,3357,3358,0,
3358,0,3359,2,
3000,3359,3360,0,
3360,0,3361,2,
2977,2619,3362,1,
3362,0,3363,2,
2619,3363,3364,1,
2988,3364,3365,0,
2619,3365,3366,1,
3366,0,3367,2,
3361,3367,3368,0,
3368,0,3369,2,
452,2994,3370,1,
3370,0,3371,2,
3092,3371,3372,1,
2994,3372,3373,1,
3369,3373,3374,0,
2994,3374,3375,1,
320,3350,3376,1,
3376,0,3377,2,
3341,3377,3378,1,
3350,3378,3379,1,
3369,3379,3380,0,
3350,3380,3381,1,
3369,32,3382,0,
33,0,3383,2,
3382,3383,3384,0,
3384,0,3385,2,
330,3385,3386,0,
32,0,3387,2,
3382,3387,3388,0,
3388,0,3389,2,
3386,3389,3390,0,
3390,34,3391,1,
3390,34,3392,0,
3391,3392,3393,1,
3001,736,3394,1,
3001,3394,3395,1,
3369,3395,3396,0,
3001,3396,3397,1,
34,0,3398,2,
3397,3398,3399,0,
3399,0,3400,2,
3393,3400,3401,0,
3390,0,3402,2,
3397,3402,3403,0,
3403,0,3404,2,
3401,3404,3405,0,
3405,35,3406,1,
3405,35,3407,0,
3406,3407,3408,1,
81,3016,3409,1,
3409,0,3410,2,
3009,3410,3411,1,
3016,3411,3412,1,
3369,3412,3413,0,
3016,3413,3414,1,
35,0,3415,2,
3414,3415,3416,0,
3416,0,3417,2,
3408,3417,3418,0,
3405,0,3419,2,
3414,3419,3420,0,
3420,0,3421,2,
3418,3421,3422,0,
3422,36,3423,1,
3422,36,3424,0,
3423,3424,3425,1,
381,3033,3426,1,
3426,0,3427,2,
3024,3427,3428,1,
3033,3428,3429,1,
3369,3429,3430,0,
3033,3430,3431,1,
36,0,3432,2,
3431,3432,3433,0,
3433,0,3434,2,
3425,3434,3435,0,
3422,0,3436,2,
3431,3436,3437,0,
3437,0,3438,2,
3435,3438,3439,0,
3439,37,3440,1,
3439,37,3441,0,
3440,3441,3442,1,
399,3050,3443,1,
3443,0,3444,2,
3041,3444,3445,1,
3050,3445,3446,1,
3369,3446,3447,0,
3050,3447,3448,1,
37,0,3449,2,
3448,3449,3450,0,
3450,0,3451,2,
3442,3451,3452,0,
3439,0,3453,2,
3448,3453,3454,0,
3454,0,3455,2,
3452,3455,3456,0,
3456,38,3457,1,
3456,38,3458,0,
3457,3458,3459,1,
417,3067,3460,1,
3460,0,3461,2,
3058,3461,3462,1,
3067,3462,3463,1,
3369,3463,3464,0,
3067,3464,3465,1,
38,0,3466,2,
3465,3466,3467,0,
3467,0,3468,2,
3459,3468,3469,0,
3456,0,3470,2,
3465,3470,3471,0,
3471,0,3472,2,
3469,3472,3473,0,
3473,39,3474,1,
3473,39,3475,0,
3474,3475,3476,1,
127,3084,3477,1,
3477,0,3478,2,
3075,3478,3479,1,
3084,3479,3480,1,
3369,3480,3481,0,
3084,3481,3482,1,
39,0,3483,2,
3482,3483,3484,0,
3484,0,3485,2,
3476,3485,3486,0,
3473,0,3487,2,
3482,3487,3488,0,
3488,0,3489,2,
3486,3489,3490,0,
3490,40,3491,1,
3490,40,3492,0,
3491,3492,3493,1,
40,0,3494,2,
3375,3494,3495,0,
3495,0,3496,2,
3493,3496,3497,0,
3490,0,3498,2,
3375,3498,3499,0,
3499,0,3500,2,
3497,3500,3501,0,
3501,41,3502,1,
3501,41,3503,0,
3502,3503,3504,1,
470,3112,3505,1,
3505,0,3506,2,
3103,3506,3507,1,
3112,3507,3508,1,
3369,3508,3509,0,
3112,3509,3510,1,
41,0,3511,2,
3510,3511,3512,0,
3512,0,3513,2,
3504,3513,3514,0,
3501,0,3515,2,
3510,3515,3516,0,
3516,0,3517,2,
3514,3517,3518,0,
3518,42,3519,1,
3518,42,3520,0,
3519,3520,3521,1,
488,3129,3522,1,
3522,0,3523,2,
3120,3523,3524,1,
3129,3524,3525,1,
3369,3525,3526,0,
3129,3526,3527,1,
42,0,3528,2,
3527,3528,3529,0,
3529,0,3530,2,
3521,3530,3531,0,
3518,0,3532,2,
3527,3532,3533,0,
3533,0,3534,2,
3531,3534,3535,0,
3535,43,3536,1,
3535,43,3537,0,
3536,3537,3538,1,
173,3146,3539,1,
3539,0,3540,2,
3137,3540,3541,1,
3146,3541,3542,1,
3369,3542,3543,0,
3146,3543,3544,1,
43,0,3545,2,
3544,3545,3546,0,
3546,0,3547,2,
3538,3547,3548,0,
3535,0,3549,2,
3544,3549,3550,0,
3550,0,3551,2,
3548,3551,3552,0,
3552,44,3553,1,
3552,44,3554,0,
3553,3554,3555,1,
523,3163,3556,1,
3556,0,3557,2,
3154,3557,3558,1,
3163,3558,3559,1,
3369,3559,3560,0,
3163,3560,3561,1,
44,0,3562,2,
3561,3562,3563,0,
3563,0,3564,2,
3555,3564,3565,0,
3552,0,3566,2,
3561,3566,3567,0,
3567,0,3568,2,
3565,3568,3569,0,
3569,45,3570,1,
3569,45,3571,0,
3570,3571,3572,1,
541,3180,3573,1,
3573,0,3574,2,
3171,3574,3575,1,
3180,3575,3576,1,
3369,3576,3577,0,
3180,3577,3578,1,
45,0,3579,2,
3578,3579,3580,0,
3580,0,3581,2,
3572,3581,3582,0,
3569,0,3583,2,
3578,3583,3584,0,
3584,0,3585,2,
3582,3585,3586,0,
3586,46,3587,1,
3586,46,3588,0,
3587,3588,3589,1,
559,3197,3590,1,
3590,0,3591,2,
3188,3591,3592,1,
3197,3592,3593,1,
3369,3593,3594,0,
3197,3594,3595,1,
46,0,3596,2,
3595,3596,3597,0,
3597,0,3598,2,
3589,3598,3599,0,
3586,0,3600,2,
3595,3600,3601,0,
3601,0,3602,2,
3599,3602,3603,0,
3603,47,3604,1,
3603,47,3605,0,
3604,3605,3606,1,
219,3214,3607,1,
3607,0,3608,2,
3205,3608,3609,1,
3214,3609,3610,1,
3369,3610,3611,0,
3214,3611,3612,1,
47,0,3613,2,
3612,3613,3614,0,
3614,0,3615,2,
3606,3615,3616,0,
3603,0,3617,2,
3612,3617,3618,0,
3618,0,3619,2,
3616,3619,3620,0,
3620,48,3621,1,
3620,48,3622,0,
3621,3622,3623,1,
594,3231,3624,1,
3624,0,3625,2,
3222,3625,3626,1,
3231,3626,3627,1,
3369,3627,3628,0,
3231,3628,3629,1,
48,0,3630,2,
3629,3630,3631,0,
3631,0,3632,2,
3623,3632,3633,0,
3620,0,3634,2,
3629,3634,3635,0,
3635,0,3636,2,
3633,3636,3637,0,
3637,49,3638,1,
3637,49,3639,0,
3638,3639,3640,1,
612,3248,3641,1,
3641,0,3642,2,
3239,3642,3643,1,
3248,3643,3644,1,
3369,3644,3645,0,
3248,3645,3646,1,
49,0,3647,2,
3646,3647,3648,0,
3648,0,3649,2,
3640,3649,3650,0,
3637,0,3651,2,
3646,3651,3652,0,
3652,0,3653,2,
3650,3653,3654,0,
3654,50,3655,1,
3654,50,3656,0,
3655,3656,3657,1,
630,3265,3658,1,
3658,0,3659,2,
3256,3659,3660,1,
3265,3660,3661,1,
3369,3661,3662,0,
3265,3662,3663,1,
50,0,3664,2,
3663,3664,3665,0,
3665,0,3666,2,
3657,3666,3667,0,
3654,0,3668,2,
3663,3668,3669,0,
3669,0,3670,2,
3667,3670,3671,0,
3671,51,3672,1,
3671,51,3673,0,
3672,3673,3674,1,
265,3282,3675,1,
3675,0,3676,2,
3273,3676,3677,1,
3282,3677,3678,1,
3369,3678,3679,0,
3282,3679,3680,1,
51,0,3681,2,
3680,3681,3682,0,
3682,0,3683,2,
3674,3683,3684,0,
3671,0,3685,2,
3680,3685,3686,0,
3686,0,3687,2,
3684,3687,3688,0,
3688,52,3689,1,
3688,52,3690,0,
3689,3690,3691,1,
665,3299,3692,1,
3692,0,3693,2,
3290,3693,3694,1,
3299,3694,3695,1,
3369,3695,3696,0,
3299,3696,3697,1,
52,0,3698,2,
3697,3698,3699,0,
3699,0,3700,2,
3691,3700,3701,0,
3688,0,3702,2,
3697,3702,3703,0,
3703,0,3704,2,
3701,3704,3705,0,
3705,53,3706,1,
3705,53,3707,0,
3706,3707,3708,1,
683,3316,3709,1,
3709,0,3710,2,
3307,3710,3711,1,
3316,3711,3712,1,
3369,3712,3713,0,
3316,3713,3714,1,
53,0,3715,2,
3714,3715,3716,0,
3716,0,3717,2,
3708,3717,3718,0,
3705,0,3719,2,
3714,3719,3720,0,
3720,0,3721,2,
3718,3721,3722,0,
3722,54,3723,1,
3722,54,3724,0,
3723,3724,3725,1,
701,3333,3726,1,
3726,0,3727,2,
3324,3727,3728,1,
3333,3728,3729,1,
3369,3729,3730,0,
3333,3730,3731,1,
54,0,3732,2,
3731,3732,3733,0,
3733,0,3734,2,
3725,3734,3735,0,
3722,0,3736,2,
3731,3736,3737,0,
3737,0,3738,2,
3735,3738,3739,0,
3739,0,3740,2,
3381,3740,3741,0,
3741,0,3742,2,
3358,3000,3743,1,
3743,0,3744,2,
3000,3744,3745,1,
3369,3745,3746,0,
3000,3746,3747,1,
3747,0,3748,2,
3742,3748,3749,0,
3749,0,3750,2,
470,3375,3751,1,
3751,0,3752,2,
3490,3752,3753,1,
3375,3753,3754,1,
3750,3754,3755,0,
3375,3755,3756,1,
320,3731,3757,1,
3757,0,3758,2,
3722,3758,3759,1,
3731,3759,3760,1,
3750,3760,3761,0,
3731,3761,3762,1,
3750,32,3763,0,
33,0,3764,2,
3763,3764,3765,0,
3765,0,3766,2,
330,3766,3767,0,
32,0,3768,2,
3763,3768,3769,0,
3769,0,3770,2,
3767,3770,3771,0,
3771,34,3772,1,
3771,34,3773,0,
3772,3773,3774,1,
3382,736,3775,1,
3382,3775,3776,1,
3750,3776,3777,0,
3382,3777,3778,1,
34,0,3779,2,
3778,3779,3780,0,
3780,0,3781,2,
3774,3781,3782,0,
3771,0,3783,2,
3778,3783,3784,0,
3784,0,3785,2,
3782,3785,3786,0,
3786,35,3787,1,
3786,35,3788,0,
3787,3788,3789,1,
81,3397,3790,1,
3790,0,3791,2,
3390,3791,3792,1,
3397,3792,3793,1,
3750,3793,3794,0,
3397,3794,3795,1,
35,0,3796,2,
3795,3796,3797,0,
3797,0,3798,2,
3789,3798,3799,0,
3786,0,3800,2,
3795,3800,3801,0,
3801,0,3802,2,
3799,3802,3803,0,
3803,36,3804,1,
3803,36,3805,0,
3804,3805,3806,1,
381,3414,3807,1,
3807,0,3808,2,
3405,3808,3809,1,
3414,3809,3810,1,
3750,3810,3811,0,
3414,3811,3812,1,
36,0,3813,2,
3812,3813,3814,0,
3814,0,3815,2,
3806,3815,3816,0,
3803,0,3817,2,
3812,3817,3818,0,
3818,0,3819,2,
3816,3819,3820,0,
3820,37,3821,1,
3820,37,3822,0,
3821,3822,3823,1,
399,3431,3824,1,
3824,0,3825,2,
3422,3825,3826,1,
3431,3826,3827,1,
3750,3827,3828,0,
3431,3828,3829,1,
37,0,3830,2,
3829,3830,3831,0,
3831,0,3832,2,
3823,3832,3833,0,
3820,0,3834,2,
3829,3834,3835,0,
3835,0,3836,2,
3833,3836,3837,0,
3837,38,3838,1,
3837,38,3839,0,
3838,3839,3840,1,
417,3448,3841,1,
3841,0,3842,2,
3439,3842,3843,1,
3448,3843,3844,1,
3750,3844,3845,0,
3448,3845,3846,1,
38,0,3847,2,
3846,3847,3848,0,
3848,0,3849,2,
3840,3849,3850,0,
3837,0,3851,2,
3846,3851,3852,0,
3852,0,3853,2,
3850,3853,3854,0,
3854,39,3855,1,
3854,39,3856,0,
3855,3856,3857,1,
127,3465,3858,1,
3858,0,3859,2,
3456,3859,3860,1,
3465,3860,3861,1,
3750,3861,3862,0,
3465,3862,3863,1,
39,0,3864,2,
3863,3864,3865,0,
3865,0,3866,2,
3857,3866,3867,0,
3854,0,3868,2,
3863,3868,3869,0,
3869,0,3870,2,
3867,3870,3871,0,
3871,40,3872,1,
3871,40,3873,0,
3872,3873,3874,1,
452,3482,3875,1,
3875,0,3876,2,
3473,3876,3877,1,
3482,3877,3878,1,
3750,3878,3879,0,
3482,3879,3880,1,
40,0,3881,2,
3880,3881,3882,0,
3882,0,3883,2,
3874,3883,3884,0,
3871,0,3885,2,
3880,3885,3886,0,
3886,0,3887,2,
3884,3887,3888,0,
3888,41,3889,1,
3888,41,3890,0,
3889,3890,3891,1,
41,0,3892,2,
3756,3892,3893,0,
3893,0,3894,2,
3891,3894,3895,0,
3888,0,3896,2,
3756,3896,3897,0,
3897,0,3898,2,
3895,3898,3899,0,
3899,42,3900,1,
3899,42,3901,0,
3900,3901,3902,1,
488,3510,3903,1,
3903,0,3904,2,
3501,3904,3905,1,
3510,3905,3906,1,
3750,3906,3907,0,
3510,3907,3908,1,
42,0,3909,2,
3908,3909,3910,0,
3910,0,3911,2,
3902,3911,3912,0,
3899,0,3913,2,
3908,3913,3914,0,
3914,0,3915,2,
3912,3915,3916,0,
3916,43,3917,1,
3916,43,3918,0,
3917,3918,3919,1,
173,3527,3920,1,
3920,0,3921,2,
3518,3921,3922,1,
3527,3922,3923,1,
3750,3923,3924,0,
3527,3924,3925,1,
43,0,3926,2,
3925,3926,3927,0,
3927,0,3928,2,
3919,3928,3929,0,
3916,0,3930,2,
3925,3930,3931,0,
3931,0,3932,2,
3929,3932,3933,0,
3933,44,3934,1,
3933,44,3935,0,
3934,3935,3936,1,
523,3544,3937,1,
3937,0,3938,2,
3535,3938,3939,1,
3544,3939,3940,1,
3750,3940,3941,0,
3544,3941,3942,1,
44,0,3943,2,
3942,3943,3944,0,
3944,0,3945,2,
3936,3945,3946,0,
3933,0,3947,2,
3942,3947,3948,0,
3948,0,3949,2,
3946,3949,3950,0,
3950,45,3951,1,
3950,45,3952,0,
3951,3952,3953,1,
541,3561,3954,1,
3954,0,3955,2,
3552,3955,3956,1,
3561,3956,3957,1,
3750,3957,3958,0,
3561,3958,3959,1,
45,0,3960,2,
3959,3960,3961,0,
3961,0,3962,2,
3953,3962,3963,0,
3950,0,3964,2,
3959,3964,3965,0,
3965,0,3966,2,
3963,3966,3967,0,
3967,46,3968,1,
3967,46,3969,0,
3968,3969,3970,1,
559,3578,3971,1,
3971,0,3972,2,
3569,3972,3973,1,
3578,3973,3974,1,
3750,3974,3975,0,
3578,3975,3976,1,
46,0,3977,2,
3976,3977,3978,0,
3978,0,3979,2,
3970,3979,3980,0,
3967,0,3981,2,
3976,3981,3982,0,
3982,0,3983,2,
3980,3983,3984,0,
3984,47,3985,1,
3984,47,3986,0,
3985,3986,3987,1,
219,3595,3988,1,
3988,0,3989,2,
3586,3989,3990,1,
3595,3990,3991,1,
3750,3991,3992,0,
3595,3992,3993,1,
47,0,3994,2,
3993,3994,3995,0,
3995,0,3996,2,
3987,3996,3997,0,
3984,0,3998,2,
3993,3998,3999,0,
3999,0,4000,2,
3997,4000,4001,0,
4001,48,4002,1,
4001,48,4003,0,
4002,4003,4004,1,
594,3612,4005,1,
4005,0,4006,2,
3603,4006,4007,1,
3612,4007,4008,1,
3750,4008,4009,0,
3612,4009,4010,1,
48,0,4011,2,
4010,4011,4012,0,
4012,0,4013,2,
4004,4013,4014,0,
4001,0,4015,2,
4010,4015,4016,0,
4016,0,4017,2,
4014,4017,4018,0,
4018,49,4019,1,
4018,49,4020,0,
4019,4020,4021,1,
612,3629,4022,1,
4022,0,4023,2,
3620,4023,4024,1,
3629,4024,4025,1,
3750,4025,4026,0,
3629,4026,4027,1,
49,0,4028,2,
4027,4028,4029,0,
4029,0,4030,2,
4021,4030,4031,0,
4018,0,4032,2,
4027,4032,4033,0,
4033,0,4034,2,
4031,4034,4035,0,
4035,50,4036,1,
4035,50,4037,0,
4036,4037,4038,1,
630,3646,4039,1,
4039,0,4040,2,
3637,4040,4041,1,
3646,4041,4042,1,
3750,4042,4043,0,
3646,4043,4044,1,
50,0,4045,2,
4044,4045,4046,0,
4046,0,4047,2,
4038,4047,4048,0,
4035,0,4049,2,
4044,4049,4050,0,
4050,0,4051,2,
4048,4051,4052,0,
4052,51,4053,1,
4052,51,4054,0,
4053,4054,4055,1,
265,3663,4056,1,
4056,0,4057,2,
3654,4057,4058,1,
3663,4058,4059,1,
3750,4059,4060,0,
3663,4060,4061,1,
51,0,4062,2,
4061,4062,4063,0,
4063,0,4064,2,
4055,4064,4065,0,
4052,0,4066,2,
4061,4066,4067,0,
4067,0,4068,2,
4065,4068,4069,0,
4069,52,4070,1,
4069,52,4071,0,
4070,4071,4072,1,
665,3680,4073,1,
4073,0,4074,2,
3671,4074,4075,1,
3680,4075,4076,1,
3750,4076,4077,0,
3680,4077,4078,1,
52,0,4079,2,
4078,4079,4080,0,
4080,0,4081,2,
4072,4081,4082,0,
4069,0,4083,2,
4078,4083,4084,0,
4084,0,4085,2,
4082,4085,4086,0,
4086,53,4087,1,
4086,53,4088,0,
4087,4088,4089,1,
683,3697,4090,1,
4090,0,4091,2,
3688,4091,4092,1,
3697,4092,4093,1,
3750,4093,4094,0,
3697,4094,4095,1,
53,0,4096,2,
4095,4096,4097,0,
4097,0,4098,2,
4089,4098,4099,0,
4086,0,4100,2,
4095,4100,4101,0,
4101,0,4102,2,
4099,4102,4103,0,
4103,54,4104,1,
4103,54,4105,0,
4104,4105,4106,1,
701,3714,4107,1,
4107,0,4108,2,
3705,4108,4109,1,
3714,4109,4110,1,
3750,4110,4111,0,
3714,4111,4112,1,
54,0,4113,2,
4112,4113,4114,0,
4114,0,4115,2,
4106,4115,4116,0,
4103,0,4117,2,
4112,4117,4118,0,
4118,0,4119,2,
4116,4119,4120,0,
4120,0,4121,2,
3762,4121,4122,0,
4122,0,4123,2,
3739,3381,4124,1,
4124,0,4125,2,
3381,4125,4126,1,
3750,4126,4127,0,
3381,4127,4128,1,
4128,0,4129,2,
4123,4129,4130,0,
4130,0,4131,2,
488,3756,4132,1,
4132,0,4133,2,
3888,4133,4134,1,
3756,4134,4135,1,
4131,4135,4136,0,
3756,4136,4137,1,
320,4112,4138,1,
4138,0,4139,2,
4103,4139,4140,1,
4112,4140,4141,1,
4131,4141,4142,0,
4112,4142,4143,1,
4131,32,4144,0,
33,0,4145,2,
4144,4145,4146,0,
4146,0,4147,2,
330,4147,4148,0,
32,0,4149,2,
4144,4149,4150,0,
4150,0,4151,2,
4148,4151,4152,0,
4152,34,4153,1,
4152,34,4154,0,
4153,4154,4155,1,
3763,736,4156,1,
3763,4156,4157,1,
4131,4157,4158,0,
3763,4158,4159,1,
34,0,4160,2,
4159,4160,4161,0,
4161,0,4162,2,
4155,4162,4163,0,
4152,0,4164,2,
4159,4164,4165,0,
4165,0,4166,2,
4163,4166,4167,0,
4167,35,4168,1,
4167,35,4169,0,
4168,4169,4170,1,
81,3778,4171,1,
4171,0,4172,2,
3771,4172,4173,1,
3778,4173,4174,1,
4131,4174,4175,0,
3778,4175,4176,1,
35,0,4177,2,
4176,4177,4178,0,
4178,0,4179,2,
4170,4179,4180,0,
4167,0,4181,2,
4176,4181,4182,0,
4182,0,4183,2,
4180,4183,4184,0,
4184,36,4185,1,
4184,36,4186,0,
4185,4186,4187,1,
381,3795,4188,1,
4188,0,4189,2,
3786,4189,4190,1,
3795,4190,4191,1,
4131,4191,4192,0,
3795,4192,4193,1,
36,0,4194,2,
4193,4194,4195,0,
4195,0,4196,2,
4187,4196,4197,0,
4184,0,4198,2,
4193,4198,4199,0,
4199,0,4200,2,
4197,4200,4201,0,
4201,37,4202,1,
4201,37,4203,0,
4202,4203,4204,1,
399,3812,4205,1,
4205,0,4206,2,
3803,4206,4207,1,
3812,4207,4208,1,
4131,4208,4209,0,
3812,4209,4210,1,
37,0,4211,2,
4210,4211,4212,0,
4212,0,4213,2,
4204,4213,4214,0,
4201,0,4215,2,
4210,4215,4216,0,
4216,0,4217,2,
4214,4217,4218,0,
4218,38,4219,1,
4218,38,4220,0,
4219,4220,4221,1,
417,3829,4222,1,
4222,0,4223,2,
3820,4223,4224,1,
3829,4224,4225,1,
4131,4225,4226,0,
3829,4226,4227,1,
38,0,4228,2,
4227,4228,4229,0,
4229,0,4230,2,
4221,4230,4231,0,
4218,0,4232,2,
4227,4232,4233,0,
4233,0,4234,2,
4231,4234,4235,0,
4235,39,4236,1,
4235,39,4237,0,
4236,4237,4238,1,
127,3846,4239,1,
4239,0,4240,2,
3837,4240,4241,1,
3846,4241,4242,1,
4131,4242,4243,0,
3846,4243,4244,1,
39,0,4245,2,
4244,4245,4246,0,
4246,0,4247,2,
4238,4247,4248,0,
4235,0,4249,2,
4244,4249,4250,0,
4250,0,4251,2,
4248,4251,4252,0,
4252,40,4253,1,
4252,40,4254,0,
4253,4254,4255,1,
452,3863,4256,1,
4256,0,4257,2,
3854,4257,4258,1,
3863,4258,4259,1,
4131,4259,4260,0,
3863,4260,4261,1,
40,0,4262,2,
4261,4262,4263,0,
4263,0,4264,2,
4255,4264,4265,0,
4252,0,4266,2,
4261,4266,4267,0,
4267,0,4268,2,
4265,4268,4269,0,
4269,41,4270,1,
4269,41,4271,0,
4270,4271,4272,1,
470,3880,4273,1,
4273,0,4274,2,
3871,4274,4275,1,
3880,4275,4276,1,
4131,4276,4277,0,
3880,4277,4278,1,
41,0,4279,2,
4278,4279,4280,0,
4280,0,4281,2,
4272,4281,4282,0,
4269,0,4283,2,
4278,4283,4284,0,
4284,0,4285,2,
4282,4285,4286,0,
4286,42,4287,1,
4286,42,4288,0,
4287,4288,4289,1,
42,0,4290,2,
4137,4290,4291,0,
4291,0,4292,2,
4289,4292,4293,0,
4286,0,4294,2,
4137,4294,4295,0,
4295,0,4296,2,
4293,4296,4297,0,
4297,43,4298,1,
4297,43,4299,0,
4298,4299,4300,1,
173,3908,4301,1,
4301,0,4302,2,
3899,4302,4303,1,
3908,4303,4304,1,
4131,4304,4305,0,
3908,4305,4306,1,
43,0,4307,2,
4306,4307,4308,0,
4308,0,4309,2,
4300,4309,4310,0,
4297,0,4311,2,
4306,4311,4312,0,
4312,0,4313,2,
4310,4313,4314,0,
4314,44,4315,1,
4314,44,4316,0,
4315,4316,4317,1,
523,3925,4318,1,
4318,0,4319,2,
3916,4319,4320,1,
3925,4320,4321,1,
4131,4321,4322,0,
3925,4322,4323,1,
44,0,4324,2,
4323,4324,4325,0,
4325,0,4326,2,
4317,4326,4327,0,
4314,0,4328,2,
4323,4328,4329,0,
4329,0,4330,2,
4327,4330,4331,0,
4331,45,4332,1,
4331,45,4333,0,
4332,4333,4334,1,
541,3942,4335,1,
4335,0,4336,2,
3933,4336,4337,1,
3942,4337,4338,1,
4131,4338,4339,0,
3942,4339,4340,1,
45,0,4341,2,
4340,4341,4342,0,
4342,0,4343,2,
4334,4343,4344,0,
4331,0,4345,2,
4340,4345,4346,0,
4346,0,4347,2,
4344,4347,4348,0,
4348,46,4349,1,
4348,46,4350,0,
4349,4350,4351,1,
559,3959,4352,1,
4352,0,4353,2,
3950,4353,4354,1,
3959,4354,4355,1,
4131,4355,4356,0,
3959,4356,4357,1,
46,0,4358,2,
4357,4358,4359,0,
4359,0,4360,2,
4351,4360,4361,0,
4348,0,4362,2,
4357,4362,4363,0,
4363,0,4364,2,
4361,4364,4365,0,
4365,47,4366,1,
4365,47,4367,0,
4366,4367,4368,1,
219,3976,4369,1,
4369,0,4370,2,
3967,4370,4371,1,
3976,4371,4372,1,
4131,4372,4373,0,
3976,4373,4374,1,
47,0,4375,2,
4374,4375,4376,0,
4376,0,4377,2,
4368,4377,4378,0,
4365,0,4379,2,
4374,4379,4380,0,
4380,0,4381,2,
4378,4381,4382,0,
4382,48,4383,1,
4382,48,4384,0,
4383,4384,4385,1,
594,3993,4386,1,
4386,0,4387,2,
3984,4387,4388,1,
3993,4388,4389,1,
4131,4389,4390,0,
3993,4390,4391,1,
48,0,4392,2,
4391,4392,4393,0,
4393,0,4394,2,
4385,4394,4395,0,
4382,0,4396,2,
4391,4396,4397,0,
4397,0,4398,2,
4395,4398,4399,0,
4399,49,4400,1,
4399,49,4401,0,
4400,4401,4402,1,
612,4010,4403,1,
4403,0,4404,2,
4001,4404,4405,1,
4010,4405,4406,1,
4131,4406,4407,0,
4010,4407,4408,1,
49,0,4409,2,
4408,4409,4410,0,
4410,0,4411,2,
4402,4411,4412,0,
4399,0,4413,2,
4408,4413,4414,0,
4414,0,4415,2,
4412,4415,4416,0,
4416,50,4417,1,
4416,50,4418,0,
4417,4418,4419,1,
630,4027,4420,1,
4420,0,4421,2,
4018,4421,4422,1,
4027,4422,4423,1,
4131,4423,4424,0,
4027,4424,4425,1,
50,0,4426,2,
4425,4426,4427,0,
4427,0,4428,2,
4419,4428,4429,0,
4416,0,4430,2,
4425,4430,4431,0,
4431,0,4432,2,
4429,4432,4433,0,
4433,51,4434,1,
4433,51,4435,0,
4434,4435,4436,1,
265,4044,4437,1,
4437,0,4438,2,
4035,4438,4439,1,
4044,4439,4440,1,
4131,4440,4441,0,
4044,4441,4442,1,
51,0,4443,2,
4442,4443,4444,0,
4444,0,4445,2,
4436,4445,4446,0,
4433,0,4447,2,
4442,4447,4448,0,
4448,0,4449,2,
4446,4449,4450,0,
4450,52,4451,1,
4450,52,4452,0,
4451,4452,4453,1,
665,4061,4454,1,
4454,0,4455,2,
4052,4455,4456,1,
4061,4456,4457,1,
4131,4457,4458,0,
4061,4458,4459,1,
52,0,4460,2,
4459,4460,4461,0,
4461,0,4462,2,
4453,4462,4463,0,
4450,0,4464,2,
4459,4464,4465,0,
4465,0,4466,2,
4463,4466,4467,0,
4467,53,4468,1,
4467,53,4469,0,
4468,4469,4470,1,
683,4078,4471,1,
4471,0,4472,2,
4069,4472,4473,1,
4078,4473,4474,1,
4131,4474,4475,0,
4078,4475,4476,1,
53,0,4477,2,
4476,4477,4478,0,
4478,0,4479,2,
4470,4479,4480,0,
4467,0,4481,2,
4476,4481,4482,0,
4482,0,4483,2,
4480,4483,4484,0,
4484,54,4485,1,
4484,54,4486,0,
4485,4486,4487,1,
701,4095,4488,1,
4488,0,4489,2,
4086,4489,4490,1,
4095,4490,4491,1,
4131,4491,4492,0,
4095,4492,4493,1,
54,0,4494,2,
4493,4494,4495,0,
4495,0,4496,2,
4487,4496,4497,0,
4484,0,4498,2,
4493,4498,4499,0,
4499,0,4500,2,
4497,4500,4501,0,
4501,0,4502,2,
4143,4502,4503,0,
4503,0,4504,2,
4120,3762,4505,1,
4505,0,4506,2,
3762,4506,4507,1,
4131,4507,4508,0,
3762,4508,4509,1,
4509,0,4510,2,
4504,4510,4511,0,
4511,0,4512,2,
173,4137,4513,1,
4513,0,4514,2,
4286,4514,4515,1,
4137,4515,4516,1,
4512,4516,4517,0,
4137,4517,4518,1,
320,4493,4519,1,
4519,0,4520,2,
4484,4520,4521,1,
4493,4521,4522,1,
4512,4522,4523,0,
4493,4523,4524,1,
4512,32,4525,0,
33,0,4526,2,
4525,4526,4527,0,
4527,0,4528,2,
330,4528,4529,0,
32,0,4530,2,
4525,4530,4531,0,
4531,0,4532,2,
4529,4532,4533,0,
4533,34,4534,1,
4533,34,4535,0,
4534,4535,4536,1,
4144,736,4537,1,
4144,4537,4538,1,
4512,4538,4539,0,
4144,4539,4540,1,
34,0,4541,2,
4540,4541,4542,0,
4542,0,4543,2,
4536,4543,4544,0,
4533,0,4545,2,
4540,4545,4546,0,
4546,0,4547,2,
4544,4547,4548,0,
4548,35,4549,1,
4548,35,4550,0,
4549,4550,4551,1,
81,4159,4552,1,
4552,0,4553,2,
4152,4553,4554,1,
4159,4554,4555,1,
4512,4555,4556,0,
4159,4556,4557,1,
35,0,4558,2,
4557,4558,4559,0,
4559,0,4560,2,
4551,4560,4561,0,
4548,0,4562,2,
4557,4562,4563,0,
4563,0,4564,2,
4561,4564,4565,0,
4565,36,4566,1,
4565,36,4567,0,
4566,4567,4568,1,
381,4176,4569,1,
4569,0,4570,2,
4167,4570,4571,1,
4176,4571,4572,1,
4512,4572,4573,0,
4176,4573,4574,1,
36,0,4575,2,
4574,4575,4576,0,
4576,0,4577,2,
4568,4577,4578,0,
4565,0,4579,2,
4574,4579,4580,0,
4580,0,4581,2,
4578,4581,4582,0,
4582,37,4583,1,
4582,37,4584,0,
4583,4584,4585,1,
399,4193,4586,1,
4586,0,4587,2,
4184,4587,4588,1,
4193,4588,4589,1,
4512,4589,4590,0,
4193,4590,4591,1,
37,0,4592,2,
4591,4592,4593,0,
4593,0,4594,2,
4585,4594,4595,0,
4582,0,4596,2,
4591,4596,4597,0,
4597,0,4598,2,
4595,4598,4599,0,
4599,38,4600,1,
4599,38,4601,0,
4600,4601,4602,1,
417,4210,4603,1,
4603,0,4604,2,
4201,4604,4605,1,
4210,4605,4606,1,
4512,4606,4607,0,
4210,4607,4608,1,
38,0,4609,2,
4608,4609,4610,0,
4610,0,4611,2,
4602,4611,4612,0,
4599,0,4613,2,
4608,4613,4614,0,
4614,0,4615,2,
4612,4615,4616,0,
4616,39,4617,1,
4616,39,4618,0,
4617,4618,4619,1,
127,4227,4620,1,
4620,0,4621,2,
4218,4621,4622,1,
4227,4622,4623,1,
4512,4623,4624,0,
4227,4624,4625,1,
39,0,4626,2,
4625,4626,4627,0,
4627,0,4628,2,
4619,4628,4629,0,
4616,0,4630,2,
4625,4630,4631,0,
4631,0,4632,2,
4629,4632,4633,0,
4633,40,4634,1,
4633,40,4635,0,
4634,4635,4636,1,
452,4244,4637,1,
4637,0,4638,2,
4235,4638,4639,1,
4244,4639,4640,1,
4512,4640,4641,0,
4244,4641,4642,1,
40,0,4643,2,
4642,4643,4644,0,
4644,0,4645,2,
4636,4645,4646,0,
4633,0,4647,2,
4642,4647,4648,0,
4648,0,4649,2,
4646,4649,4650,0,
4650,41,4651,1,
4650,41,4652,0,
4651,4652,4653,1,
470,4261,4654,1,
4654,0,4655,2,
4252,4655,4656,1,
4261,4656,4657,1,
4512,4657,4658,0,
4261,4658,4659,1,
41,0,4660,2,
4659,4660,4661,0,
4661,0,4662,2,
4653,4662,4663,0,
4650,0,4664,2,
4659,4664,4665,0,
4665,0,4666,2,
4663,4666,4667,0,
4667,42,4668,1,
4667,42,4669,0,
4668,4669,4670,1,
488,4278,4671,1,
4671,0,4672,2,
4269,4672,4673,1,
4278,4673,4674,1,
4512,4674,4675,0,
4278,4675,4676,1,
42,0,4677,2,
4676,4677,4678,0,
4678,0,4679,2,
4670,4679,4680,0,
4667,0,4681,2,
4676,4681,4682,0,
4682,0,4683,2,
4680,4683,4684,0,
4684,43,4685,1,
4684,43,4686,0,
4685,4686,4687,1,
43,0,4688,2,
4518,4688,4689,0,
4689,0,4690,2,
4687,4690,4691,0,
4684,0,4692,2,
4518,4692,4693,0,
4693,0,4694,2,
4691,4694,4695,0,
4695,44,4696,1,
4695,44,4697,0,
4696,4697,4698,1,
523,4306,4699,1,
4699,0,4700,2,
4297,4700,4701,1,
4306,4701,4702,1,
4512,4702,4703,0,
4306,4703,4704,1,
44,0,4705,2,
4704,4705,4706,0,
4706,0,4707,2,
4698,4707,4708,0,
4695,0,4709,2,
4704,4709,4710,0,
4710,0,4711,2,
4708,4711,4712,0,
4712,45,4713,1,
4712,45,4714,0,
4713,4714,4715,1,
541,4323,4716,1,
4716,0,4717,2,
4314,4717,4718,1,
4323,4718,4719,1,
4512,4719,4720,0,
4323,4720,4721,1,
45,0,4722,2,
4721,4722,4723,0,
4723,0,4724,2,
4715,4724,4725,0,
4712,0,4726,2,
4721,4726,4727,0,
4727,0,4728,2,
4725,4728,4729,0,
4729,46,4730,1,
4729,46,4731,0,
4730,4731,4732,1,
559,4340,4733,1,
4733,0,4734,2,
4331,4734,4735,1,
4340,4735,4736,1,
4512,4736,4737,0,
4340,4737,4738,1,
46,0,4739,2,
4738,4739,4740,0,
4740,0,4741,2,
4732,4741,4742,0,
4729,0,4743,2,
4738,4743,4744,0,
4744,0,4745,2,
4742,4745,4746,0,
4746,47,4747,1,
4746,47,4748,0,
4747,4748,4749,1,
219,4357,4750,1,
4750,0,4751,2,
4348,4751,4752,1,
4357,4752,4753,1,
4512,4753,4754,0,
4357,4754,4755,1,
47,0,4756,2,
4755,4756,4757,0,
4757,0,4758,2,
4749,4758,4759,0,
4746,0,4760,2,
4755,4760,4761,0,
4761,0,4762,2,
4759,4762,4763,0,
4763,48,4764,1,
4763,48,4765,0,
4764,4765,4766,1,
594,4374,4767,1,
4767,0,4768,2,
4365,4768,4769,1,
4374,4769,4770,1,
4512,4770,4771,0,
4374,4771,4772,1,
48,0,4773,2,
4772,4773,4774,0,
4774,0,4775,2,
4766,4775,4776,0,
4763,0,4777,2,
4772,4777,4778,0,
4778,0,4779,2,
4776,4779,4780,0,
4780,49,4781,1,
4780,49,4782,0,
4781,4782,4783,1,
612,4391,4784,1,
4784,0,4785,2,
4382,4785,4786,1,
4391,4786,4787,1,
4512,4787,4788,0,
4391,4788,4789,1,
49,0,4790,2,
4789,4790,4791,0,
4791,0,4792,2,
4783,4792,4793,0,
4780,0,4794,2,
4789,4794,4795,0,
4795,0,4796,2,
4793,4796,4797,0,
4797,50,4798,1,
4797,50,4799,0,
4798,4799,4800,1,
630,4408,4801,1,
4801,0,4802,2,
4399,4802,4803,1,
4408,4803,4804,1,
4512,4804,4805,0,
4408,4805,4806,1,
50,0,4807,2,
4806,4807,4808,0,
4808,0,4809,2,
4800,4809,4810,0,
4797,0,4811,2,
4806,4811,4812,0,
4812,0,4813,2,
4810,4813,4814,0,
4814,51,4815,1,
4814,51,4816,0,
4815,4816,4817,1,
265,4425,4818,1,
4818,0,4819,2,
4416,4819,4820,1,
4425,4820,4821,1,
4512,4821,4822,0,
4425,4822,4823,1,
51,0,4824,2,
4823,4824,4825,0,
4825,0,4826,2,
4817,4826,4827,0,
4814,0,4828,2,
4823,4828,4829,0,
4829,0,4830,2,
4827,4830,4831,0,
4831,52,4832,1,
4831,52,4833,0,
4832,4833,4834,1,
665,4442,4835,1,
4835,0,4836,2,
4433,4836,4837,1,
4442,4837,4838,1,
4512,4838,4839,0,
4442,4839,4840,1,
52,0,4841,2,
4840,4841,4842,0,
4842,0,4843,2,
4834,4843,4844,0,
4831,0,4845,2,
4840,4845,4846,0,
4846,0,4847,2,
4844,4847,4848,0,
4848,53,4849,1,
4848,53,4850,0,
4849,4850,4851,1,
683,4459,4852,1,
4852,0,4853,2,
4450,4853,4854,1,
4459,4854,4855,1,
4512,4855,4856,0,
4459,4856,4857,1,
53,0,4858,2,
4857,4858,4859,0,
4859,0,4860,2,
4851,4860,4861,0,
4848,0,4862,2,
4857,4862,4863,0,
4863,0,4864,2,
4861,4864,4865,0,
4865,54,4866,1,
4865,54,4867,0,
4866,4867,4868,1,
701,4476,4869,1,
4869,0,4870,2,
4467,4870,4871,1,
4476,4871,4872,1,
4512,4872,4873,0,
4476,4873,4874,1,
54,0,4875,2,
4874,4875,4876,0,
4876,0,4877,2,
4868,4877,4878,0,
4865,0,4879,2,
4874,4879,4880,0,
4880,0,4881,2,
4878,4881,4882,0,
4882,0,4883,2,
4524,4883,4884,0,
4884,0,4885,2,
4501,4143,4886,1,
4886,0,4887,2,
4143,4887,4888,1,
4512,4888,4889,0,
4143,4889,4890,1,
4890,0,4891,2,
4885,4891,4892,0,
4892,0,4893,2,
523,4518,4894,1,
4894,0,4895,2,
4684,4895,4896,1,
4518,4896,4897,1,
4893,4897,4898,0,
4518,4898,4899,1,
320,4874,4900,1,
4900,0,4901,2,
4865,4901,4902,1,
4874,4902,4903,1,
4893,4903,4904,0,
4874,4904,4905,1,
4893,32,4906,0,
33,0,4907,2,
4906,4907,4908,0,
4908,0,4909,2,
330,4909,4910,0,
32,0,4911,2,
4906,4911,4912,0,
4912,0,4913,2,
4910,4913,4914,0,
4914,34,4915,1,
4914,34,4916,0,
4915,4916,4917,1,
4525,736,4918,1,
4525,4918,4919,1,
4893,4919,4920,0,
4525,4920,4921,1,
34,0,4922,2,
4921,4922,4923,0,
4923,0,4924,2,
4917,4924,4925,0,
4914,0,4926,2,
4921,4926,4927,0,
4927,0,4928,2,
4925,4928,4929,0,
4929,35,4930,1,
4929,35,4931,0,
4930,4931,4932,1,
81,4540,4933,1,
4933,0,4934,2,
4533,4934,4935,1,
4540,4935,4936,1,
4893,4936,4937,0,
4540,4937,4938,1,
35,0,4939,2,
4938,4939,4940,0,
4940,0,4941,2,
4932,4941,4942,0,
4929,0,4943,2,
4938,4943,4944,0,
4944,0,4945,2,
4942,4945,4946,0,
4946,36,4947,1,
4946,36,4948,0,
4947,4948,4949,1,
381,4557,4950,1,
4950,0,4951,2,
4548,4951,4952,1,
4557,4952,4953,1,
4893,4953,4954,0,
4557,4954,4955,1,
36,0,4956,2,
4955,4956,4957,0,
4957,0,4958,2,
4949,4958,4959,0,
4946,0,4960,2,
4955,4960,4961,0,
4961,0,4962,2,
4959,4962,4963,0,
4963,37,4964,1,
4963,37,4965,0,
4964,4965,4966,1,
399,4574,4967,1,
4967,0,4968,2,
4565,4968,4969,1,
4574,4969,4970,1,
4893,4970,4971,0,
4574,4971,4972,1,
37,0,4973,2,
4972,4973,4974,0,
4974,0,4975,2,
4966,4975,4976,0,
4963,0,4977,2,
4972,4977,4978,0,
4978,0,4979,2,
4976,4979,4980,0,
4980,38,4981,1,
4980,38,4982,0,
4981,4982,4983,1,
417,4591,4984,1,
4984,0,4985,2,
4582,4985,4986,1,
4591,4986,4987,1,
4893,4987,4988,0,
4591,4988,4989,1,
38,0,4990,2,
4989,4990,4991,0,
4991,0,4992,2,
4983,4992,4993,0,
4980,0,4994,2,
4989,4994,4995,0,
4995,0,4996,2,
4993,4996,4997,0,
4997,39,4998,1,
4997,39,4999,0,
4998,4999,5000,1,
127,4608,5001,1,
5001,0,5002,2,
4599,5002,5003,1,
4608,5003,5004,1,
4893,5004,5005,0,
4608,5005,5006,1,
39,0,5007,2,
5006,5007,5008,0,
5008,0,5009,2,
5000,5009,5010,0,
4997,0,5011,2,
5006,5011,5012,0,
5012,0,5013,2,
5010,5013,5014,0,
5014,40,5015,1,
5014,40,5016,0,
5015,5016,5017,1,
452,4625,5018,1,
5018,0,5019,2,
4616,5019,5020,1,
4625,5020,5021,1,
4893,5021,5022,0,
4625,5022,5023,1,
40,0,5024,2,
5023,5024,5025,0,
5025,0,5026,2,
5017,5026,5027,0,
5014,0,5028,2,
5023,5028,5029,0,
5029,0,5030,2,
5027,5030,5031,0,
5031,41,5032,1,
5031,41,5033,0,
5032,5033,5034,1,
470,4642,5035,1,
5035,0,5036,2,
4633,5036,5037,1,
4642,5037,5038,1,
4893,5038,5039,0,
4642,5039,5040,1,
41,0,5041,2,
5040,5041,5042,0,
5042,0,5043,2,
5034,5043,5044,0,
5031,0,5045,2,
5040,5045,5046,0,
5046,0,5047,2,
5044,5047,5048,0,
5048,42,5049,1,
5048,42,5050,0,
5049,5050,5051,1,
488,4659,5052,1,
5052,0,5053,2,
4650,5053,5054,1,
4659,5054,5055,1,
4893,5055,5056,0,
4659,5056,5057,1,
42,0,5058,2,
5057,5058,5059,0,
5059,0,5060,2,
5051,5060,5061,0,
5048,0,5062,2,
5057,5062,5063,0,
5063,0,5064,2,
5061,5064,5065,0,
5065,43,5066,1,
5065,43,5067,0,
5066,5067,5068,1,
173,4676,5069,1,
5069,0,5070,2,
4667,5070,5071,1,
4676,5071,5072,1,
4893,5072,5073,0,
4676,5073,5074,1,
43,0,5075,2,
5074,5075,5076,0,
5076,0,5077,2,
5068,5077,5078,0,
5065,0,5079,2,
5074,5079,5080,0,
5080,0,5081,2,
5078,5081,5082,0,
5082,44,5083,1,
5082,44,5084,0,
5083,5084,5085,1,
44,0,5086,2,
4899,5086,5087,0,
5087,0,5088,2,
5085,5088,5089,0,
5082,0,5090,2,
4899,5090,5091,0,
5091,0,5092,2,
5089,5092,5093,0,
5093,45,5094,1,
5093,45,5095,0,
5094,5095,5096,1,
541,4704,5097,1,
5097,0,5098,2,
4695,5098,5099,1,
4704,5099,5100,1,
4893,5100,5101,0,
4704,5101,5102,1,
45,0,5103,2,
5102,5103,5104,0,
5104,0,5105,2,
5096,5105,5106,0,
5093,0,5107,2,
5102,5107,5108,0,
5108,0,5109,2,
5106,5109,5110,0,
5110,46,5111,1,
5110,46,5112,0,
5111,5112,5113,1,
559,4721,5114,1,
5114,0,5115,2,
4712,5115,5116,1,
4721,5116,5117,1,
4893,5117,5118,0,
4721,5118,5119,1,
46,0,5120,2,
5119,5120,5121,0,
5121,0,5122,2,
5113,5122,5123,0,
5110,0,5124,2,
5119,5124,5125,0,
5125,0,5126,2,
5123,5126,5127,0,
5127,47,5128,1,
5127,47,5129,0,
5128,5129,5130,1,
219,4738,5131,1,
5131,0,5132,2,
4729,5132,5133,1,
4738,5133,5134,1,
4893,5134,5135,0,
4738,5135,5136,1,
47,0,5137,2,
5136,5137,5138,0,
5138,0,5139,2,
5130,5139,5140,0,
5127,0,5141,2,
5136,5141,5142,0,
5142,0,5143,2,
5140,5143,5144,0,
5144,48,5145,1,
5144,48,5146,0,
5145,5146,5147,1,
594,4755,5148,1,
5148,0,5149,2,
4746,5149,5150,1,
4755,5150,5151,1,
4893,5151,5152,0,
4755,5152,5153,1,
48,0,5154,2,
5153,5154,5155,0,
5155,0,5156,2,
5147,5156,5157,0,
5144,0,5158,2,
5153,5158,5159,0,
5159,0,5160,2,
5157,5160,5161,0,
5161,49,5162,1,
5161,49,5163,0,
5162,5163,5164,1,
612,4772,5165,1,
5165,0,5166,2,
4763,5166,5167,1,
4772,5167,5168,1,
4893,5168,5169,0,
4772,5169,5170,1,
49,0,5171,2,
5170,5171,5172,0,
5172,0,5173,2,
5164,5173,5174,0,
5161,0,5175,2,
5170,5175,5176,0,
5176,0,5177,2,
5174,5177,5178,0,
5178,50,5179,1,
5178,50,5180,0,
5179,5180,5181,1,
630,4789,5182,1,
5182,0,5183,2,
4780,5183,5184,1,
4789,5184,5185,1,
4893,5185,5186,0,
4789,5186,5187,1,
50,0,5188,2,
5187,5188,5189,0,
5189,0,5190,2,
5181,5190,5191,0,
5178,0,5192,2,
5187,5192,5193,0,
5193,0,5194,2,
5191,5194,5195,0,
5195,51,5196,1,
5195,51,5197,0,
5196,5197,5198,1,
265,4806,5199,1,
5199,0,5200,2,
4797,5200,5201,1,
4806,5201,5202,1,
4893,5202,5203,0,
4806,5203,5204,1,
51,0,5205,2,
5204,5205,5206,0,
5206,0,5207,2,
5198,5207,5208,0,
5195,0,5209,2,
5204,5209,5210,0,
5210,0,5211,2,
5208,5211,5212,0,
5212,52,5213,1,
5212,52,5214,0,
5213,5214,5215,1,
665,4823,5216,1,
5216,0,5217,2,
4814,5217,5218,1,
4823,5218,5219,1,
4893,5219,5220,0,
4823,5220,5221,1,
52,0,5222,2,
5221,5222,5223,0,
5223,0,5224,2,
5215,5224,5225,0,
5212,0,5226,2,
5221,5226,5227,0,
5227,0,5228,2,
5225,5228,5229,0,
5229,53,5230,1,
5229,53,5231,0,
5230,5231,5232,1,
683,4840,5233,1,
5233,0,5234,2,
4831,5234,5235,1,
4840,5235,5236,1,
4893,5236,5237,0,
4840,5237,5238,1,
53,0,5239,2,
5238,5239,5240,0,
5240,0,5241,2,
5232,5241,5242,0,
5229,0,5243,2,
5238,5243,5244,0,
5244,0,5245,2,
5242,5245,5246,0,
5246,54,5247,1,
5246,54,5248,0,
5247,5248,5249,1,
701,4857,5250,1,
5250,0,5251,2,
4848,5251,5252,1,
4857,5252,5253,1,
4893,5253,5254,0,
4857,5254,5255,1,
54,0,5256,2,
5255,5256,5257,0,
5257,0,5258,2,
5249,5258,5259,0,
5246,0,5260,2,
5255,5260,5261,0,
5261,0,5262,2,
5259,5262,5263,0,
5263,0,5264,2,
4905,5264,5265,0,
5265,0,5266,2,
4882,4524,5267,1,
5267,0,5268,2,
4524,5268,5269,1,
4893,5269,5270,0,
4524,5270,5271,1,
5271,0,5272,2,
5266,5272,5273,0,
5273,0,5274,2,
541,4899,5275,1,
5275,0,5276,2,
5082,5276,5277,1,
4899,5277,5278,1,
5274,5278,5279,0,
4899,5279,5280,1,
320,5255,5281,1,
5281,0,5282,2,
5246,5282,5283,1,
5255,5283,5284,1,
5274,5284,5285,0,
5255,5285,5286,1,
5274,32,5287,0,
33,0,5288,2,
5287,5288,5289,0,
5289,0,5290,2,
330,5290,5291,0,
32,0,5292,2,
5287,5292,5293,0,
5293,0,5294,2,
5291,5294,5295,0,
5295,34,5296,1,
5295,34,5297,0,
5296,5297,5298,1,
4906,736,5299,1,
4906,5299,5300,1,
5274,5300,5301,0,
4906,5301,5302,1,
34,0,5303,2,
5302,5303,5304,0,
5304,0,5305,2,
5298,5305,5306,0,
5295,0,5307,2,
5302,5307,5308,0,
5308,0,5309,2,
5306,5309,5310,0,
5310,35,5311,1,
5310,35,5312,0,
5311,5312,5313,1,
81,4921,5314,1,
5314,0,5315,2,
4914,5315,5316,1,
4921,5316,5317,1,
5274,5317,5318,0,
4921,5318,5319,1,
35,0,5320,2,
5319,5320,5321,0,
5321,0,5322,2,
5313,5322,5323,0,
5310,0,5324,2,
5319,5324,5325,0,
5325,0,5326,2,
5323,5326,5327,0,
5327,36,5328,1,
5327,36,5329,0,
5328,5329,5330,1,
381,4938,5331,1,
5331,0,5332,2,
4929,5332,5333,1,
4938,5333,5334,1,
5274,5334,5335,0,
4938,5335,5336,1,
36,0,5337,2,
5336,5337,5338,0,
5338,0,5339,2,
5330,5339,5340,0,
5327,0,5341,2,
5336,5341,5342,0,
5342,0,5343,2,
5340,5343,5344,0,
5344,37,5345,1,
5344,37,5346,0,
5345,5346,5347,1,
399,4955,5348,1,
5348,0,5349,2,
4946,5349,5350,1,
4955,5350,5351,1,
5274,5351,5352,0,
4955,5352,5353,1,
37,0,5354,2,
5353,5354,5355,0,
5355,0,5356,2,
5347,5356,5357,0,
5344,0,5358,2,
5353,5358,5359,0,
5359,0,5360,2,
5357,5360,5361,0,
5361,38,5362,1,
5361,38,5363,0,
5362,5363,5364,1,
417,4972,5365,1,
5365,0,5366,2,
4963,5366,5367,1,
4972,5367,5368,1,
5274,5368,5369,0,
4972,5369,5370,1,
38,0,5371,2,
5370,5371,5372,0,
5372,0,5373,2,
5364,5373,5374,0,
5361,0,5375,2,
5370,5375,5376,0,
5376,0,5377,2,
5374,5377,5378,0,
5378,39,5379,1,
5378,39,5380,0,
5379,5380,5381,1,
127,4989,5382,1,
5382,0,5383,2,
4980,5383,5384,1,
4989,5384,5385,1,
5274,5385,5386,0,
4989,5386,5387,1,
39,0,5388,2,
5387,5388,5389,0,
5389,0,5390,2,
5381,5390,5391,0,
5378,0,5392,2,
5387,5392,5393,0,
5393,0,5394,2,
5391,5394,5395,0,
5395,40,5396,1,
5395,40,5397,0,
5396,5397,5398,1,
452,5006,5399,1,
5399,0,5400,2,
4997,5400,5401,1,
5006,5401,5402,1,
5274,5402,5403,0,
5006,5403,5404,1,
40,0,5405,2,
5404,5405,5406,0,
5406,0,5407,2,
5398,5407,5408,0,
5395,0,5409,2,
5404,5409,5410,0,
5410,0,5411,2,
5408,5411,5412,0,
5412,41,5413,1,
5412,41,5414,0,
5413,5414,5415,1,
470,5023,5416,1,
5416,0,5417,2,
5014,5417,5418,1,
5023,5418,5419,1,
5274,5419,5420,0,
5023,5420,5421,1,
41,0,5422,2,
5421,5422,5423,0,
5423,0,5424,2,
5415,5424,5425,0,
5412,0,5426,2,
5421,5426,5427,0,
5427,0,5428,2,
5425,5428,5429,0,
5429,42,5430,1,
5429,42,5431,0,
5430,5431,5432,1,
488,5040,5433,1,
5433,0,5434,2,
5031,5434,5435,1,
5040,5435,5436,1,
5274,5436,5437,0,
5040,5437,5438,1,
42,0,5439,2,
5438,5439,5440,0,
5440,0,5441,2,
5432,5441,5442,0,
5429,0,5443,2,
5438,5443,5444,0,
5444,0,5445,2,
5442,5445,5446,0,
5446,43,5447,1,
5446,43,5448,0,
5447,5448,5449,1,
173,5057,5450,1,
5450,0,5451,2,
5048,5451,5452,1,
5057,5452,5453,1,
5274,5453,5454,0,
5057,5454,5455,1,
43,0,5456,2,
5455,5456,5457,0,
5457,0,5458,2,
5449,5458,5459,0,
5446,0,5460,2,
5455,5460,5461,0,
5461,0,5462,2,
5459,5462,5463,0,
5463,44,5464,1,
5463,44,5465,0,
5464,5465,5466,1,
523,5074,5467,1,
5467,0,5468,2,
5065,5468,5469,1,
5074,5469,5470,1,
5274,5470,5471,0,
5074,5471,5472,1,
44,0,5473,2,
5472,5473,5474,0,
5474,0,5475,2,
5466,5475,5476,0,
5463,0,5477,2,
5472,5477,5478,0,
5478,0,5479,2,
5476,5479,5480,0,
5480,45,5481,1,
5480,45,5482,0,
5481,5482,5483,1,
45,0,5484,2,
5280,5484,5485,0,
5485,0,5486,2,
5483,5486,5487,0,
5480,0,5488,2,
5280,5488,5489,0,
5489,0,5490,2,
5487,5490,5491,0,
5491,46,5492,1,
5491,46,5493,0,
5492,5493,5494,1,
559,5102,5495,1,
5495,0,5496,2,
5093,5496,5497,1,
5102,5497,5498,1,
5274,5498,5499,0,
5102,5499,5500,1,
46,0,5501,2,
5500,5501,5502,0,
5502,0,5503,2,
5494,5503,5504,0,
5491,0,5505,2,
5500,5505,5506,0,
5506,0,5507,2,
5504,5507,5508,0,
5508,47,5509,1,
5508,47,5510,0,
5509,5510,5511,1,
219,5119,5512,1,
5512,0,5513,2,
5110,5513,5514,1,
5119,5514,5515,1,
5274,5515,5516,0,
5119,5516,5517,1,
47,0,5518,2,
5517,5518,5519,0,
5519,0,5520,2,
5511,5520,5521,0,
5508,0,5522,2,
5517,5522,5523,0,
5523,0,5524,2,
5521,5524,5525,0,
5525,48,5526,1,
5525,48,5527,0,
5526,5527,5528,1,
594,5136,5529,1,
5529,0,5530,2,
5127,5530,5531,1,
5136,5531,5532,1,
5274,5532,5533,0,
5136,5533,5534,1,
48,0,5535,2,
5534,5535,5536,0,
5536,0,5537,2,
5528,5537,5538,0,
5525,0,5539,2,
5534,5539,5540,0,
5540,0,5541,2,
5538,5541,5542,0,
5542,49,5543,1,
5542,49,5544,0,
5543,5544,5545,1,
612,5153,5546,1,
5546,0,5547,2,
5144,5547,5548,1,
5153,5548,5549,1,
5274,5549,5550,0,
5153,5550,5551,1,
49,0,5552,2,
5551,5552,5553,0,
5553,0,5554,2,
5545,5554,5555,0,
5542,0,5556,2,
5551,5556,5557,0,
5557,0,5558,2,
5555,5558,5559,0,
5559,50,5560,1,
5559,50,5561,0,
5560,5561,5562,1,
630,5170,5563,1,
5563,0,5564,2,
5161,5564,5565,1,
5170,5565,5566,1,
5274,5566,5567,0,
5170,5567,5568,1,
50,0,5569,2,
5568,5569,5570,0,
5570,0,5571,2,
5562,5571,5572,0,
5559,0,5573,2,
5568,5573,5574,0,
5574,0,5575,2,
5572,5575,5576,0,
5576,51,5577,1,
5576,51,5578,0,
5577,5578,5579,1,
265,5187,5580,1,
5580,0,5581,2,
5178,5581,5582,1,
5187,5582,5583,1,
5274,5583,5584,0,
5187,5584,5585,1,
51,0,5586,2,
5585,5586,5587,0,
5587,0,5588,2,
5579,5588,5589,0,
5576,0,5590,2,
5585,5590,5591,0,
5591,0,5592,2,
5589,5592,5593,0,
5593,52,5594,1,
5593,52,5595,0,
5594,5595,5596,1,
665,5204,5597,1,
5597,0,5598,2,
5195,5598,5599,1,
5204,5599,5600,1,
5274,5600,5601,0,
5204,5601,5602,1,
52,0,5603,2,
5602,5603,5604,0,
5604,0,5605,2,
5596,5605,5606,0,
5593,0,5607,2,
5602,5607,5608,0,
5608,0,5609,2,
5606,5609,5610,0,
5610,53,5611,1,
5610,53,5612,0,
5611,5612,5613,1,
683,5221,5614,1,
5614,0,5615,2,
5212,5615,5616,1,
5221,5616,5617,1,
5274,5617,5618,0,
5221,5618,5619,1,
53,0,5620,2,
5619,5620,5621,0,
5621,0,5622,2,
5613,5622,5623,0,
5610,0,5624,2,
5619,5624,5625,0,
5625,0,5626,2,
5623,5626,5627,0,
5627,54,5628,1,
5627,54,5629,0,
5628,5629,5630,1,
701,5238,5631,1,
5631,0,5632,2,
5229,5632,5633,1,
5238,5633,5634,1,
5274,5634,5635,0,
5238,5635,5636,1,
54,0,5637,2,
5636,5637,5638,0,
5638,0,5639,2,
5630,5639,5640,0,
5627,0,5641,2,
5636,5641,5642,0,
5642,0,5643,2,
5640,5643,5644,0,
5644,0,5645,2,
5286,5645,5646,0,
5646,0,5647,2,
5263,4905,5648,1,
5648,0,5649,2,
4905,5649,5650,1,
5274,5650,5651,0,
4905,5651,5652,1,
5652,0,5653,2,
5647,5653,5654,0,
5654,0,5655,2,
559,5280,5656,1,
5656,0,5657,2,
5480,5657,5658,1,
5280,5658,5659,1,
5655,5659,5660,0,
5280,5660,5661,1,
320,5636,5662,1,
5662,0,5663,2,
5627,5663,5664,1,
5636,5664,5665,1,
5655,5665,5666,0,
5636,5666,5667,1,
5655,32,5668,0,
33,0,5669,2,
5668,5669,5670,0,
5670,0,5671,2,
330,5671,5672,0,
32,0,5673,2,
5668,5673,5674,0,
5674,0,5675,2,
5672,5675,5676,0,
5676,34,5677,1,
5676,34,5678,0,
5677,5678,5679,1,
5287,736,5680,1,
5287,5680,5681,1,
5655,5681,5682,0,
5287,5682,5683,1,
34,0,5684,2,
5683,5684,5685,0,
5685,0,5686,2,
5679,5686,5687,0,
5676,0,5688,2,
5683,5688,5689,0,
5689,0,5690,2,
5687,5690,5691,0,
5691,35,5692,1,
5691,35,5693,0,
5692,5693,5694,1,
81,5302,5695,1,
5695,0,5696,2,
5295,5696,5697,1,
5302,5697,5698,1,
5655,5698,5699,0,
5302,5699,5700,1,
35,0,5701,2,
5700,5701,5702,0,
5702,0,5703,2,
5694,5703,5704,0,
5691,0,5705,2,
5700,5705,5706,0,
5706,0,5707,2,
5704,5707,5708,0,
5708,36,5709,1,
5708,36,5710,0,
5709,5710,5711,1,
381,5319,5712,1,
5712,0,5713,2,
5310,5713,5714,1,
5319,5714,5715,1,
5655,5715,5716,0,
5319,5716,5717,1,
36,0,5718,2,
5717,5718,5719,0,
5719,0,5720,2,
5711,5720,5721,0,
5708,0,5722,2,
5717,5722,5723,0,
5723,0,5724,2,
5721,5724,5725,0,
5725,37,5726,1,
5725,37,5727,0,
5726,5727,5728,1,
399,5336,5729,1,
5729,0,5730,2,
5327,5730,5731,1,
5336,5731,5732,1,
5655,5732,5733,0,
5336,5733,5734,1,
37,0,5735,2,
5734,5735,5736,0,
5736,0,5737,2,
5728,5737,5738,0,
5725,0,5739,2,
5734,5739,5740,0,
5740,0,5741,2,
5738,5741,5742,0,
5742,38,5743,1,
5742,38,5744,0,
5743,5744,5745,1,
417,5353,5746,1,
5746,0,5747,2,
5344,5747,5748,1,
5353,5748,5749,1,
5655,5749,5750,0,
5353,5750,5751,1,
38,0,5752,2,
5751,5752,5753,0,
5753,0,5754,2,
5745,5754,5755,0,
5742,0,5756,2,
5751,5756,5757,0,
5757,0,5758,2,
5755,5758,5759,0,
5759,39,5760,1,
5759,39,5761,0,
5760,5761,5762,1,
127,5370,5763,1,
5763,0,5764,2,
5361,5764,5765,1,
5370,5765,5766,1,
5655,5766,5767,0,
5370,5767,5768,1,
39,0,5769,2,
5768,5769,5770,0,
5770,0,5771,2,
5762,5771,5772,0,
5759,0,5773,2,
5768,5773,5774,0,
5774,0,5775,2,
5772,5775,5776,0,
5776,40,5777,1,
5776,40,5778,0,
5777,5778,5779,1,
452,5387,5780,1,
5780,0,5781,2,
5378,5781,5782,1,
5387,5782,5783,1,
5655,5783,5784,0,
5387,5784,5785,1,
40,0,5786,2,
5785,5786,5787,0,
5787,0,5788,2,
5779,5788,5789,0,
5776,0,5790,2,
5785,5790,5791,0,
5791,0,5792,2,
5789,5792,5793,0,
5793,41,5794,1,
5793,41,5795,0,
5794,5795,5796,1,
470,5404,5797,1,
5797,0,5798,2,
5395,5798,5799,1,
5404,5799,5800,1,
5655,5800,5801,0,
5404,5801,5802,1,
41,0,5803,2,
5802,5803,5804,0,
5804,0,5805,2,
5796,5805,5806,0,
5793,0,5807,2,
5802,5807,5808,0,
5808,0,5809,2,
5806,5809,5810,0,
5810,42,5811,1,
5810,42,5812,0,
5811,5812,5813,1,
488,5421,5814,1,
5814,0,5815,2,
5412,5815,5816,1,
5421,5816,5817,1,
5655,5817,5818,0,
5421,5818,5819,1,
42,0,5820,2,
5819,5820,5821,0,
5821,0,5822,2,
5813,5822,5823,0,
5810,0,5824,2,
5819,5824,5825,0,
5825,0,5826,2,
5823,5826,5827,0,
5827,43,5828,1,
5827,43,5829,0,
5828,5829,5830,1,
173,5438,5831,1,
5831,0,5832,2,
5429,5832,5833,1,
5438,5833,5834,1,
5655,5834,5835,0,
5438,5835,5836,1,
43,0,5837,2,
5836,5837,5838,0,
5838,0,5839,2,
5830,5839,5840,0,
5827,0,5841,2,
5836,5841,5842,0,
5842,0,5843,2,
5840,5843,5844,0,
5844,44,5845,1,
5844,44,5846,0,
5845,5846,5847,1,
523,5455,5848,1,
5848,0,5849,2,
5446,5849,5850,1,
5455,5850,5851,1,
5655,5851,5852,0,
5455,5852,5853,1,
44,0,5854,2,
5853,5854,5855,0,
5855,0,5856,2,
5847,5856,5857,0,
5844,0,5858,2,
5853,5858,5859,0,
5859,0,5860,2,
5857,5860,5861,0,
5861,45,5862,1,
5861,45,5863,0,
5862,5863,5864,1,
541,5472,5865,1,
5865,0,5866,2,
5463,5866,5867,1,
5472,5867,5868,1,
5655,5868,5869,0,
5472,5869,5870,1,
45,0,5871,2,
5870,5871,5872,0,
5872,0,5873,2,
5864,5873,5874,0,
5861,0,5875,2,
5870,5875,5876,0,
5876,0,5877,2,
5874,5877,5878,0,
5878,46,5879,1,
5878,46,5880,0,
5879,5880,5881,1,
46,0,5882,2,
5661,5882,5883,0,
5883,0,5884,2,
5881,5884,5885,0,
5878,0,5886,2,
5661,5886,5887,0,
5887,0,5888,2,
5885,5888,5889,0,
5889,47,5890,1,
5889,47,5891,0,
5890,5891,5892,1,
219,5500,5893,1,
5893,0,5894,2,
5491,5894,5895,1,
5500,5895,5896,1,
5655,5896,5897,0,
5500,5897,5898,1,
47,0,5899,2,
5898,5899,5900,0,
5900,0,5901,2,
5892,5901,5902,0,
5889,0,5903,2,
5898,5903,5904,0,
5904,0,5905,2,
5902,5905,5906,0,
5906,48,5907,1,
5906,48,5908,0,
5907,5908,5909,1,
594,5517,5910,1,
5910,0,5911,2,
5508,5911,5912,1,
5517,5912,5913,1,
5655,5913,5914,0,
5517,5914,5915,1,
48,0,5916,2,
5915,5916,5917,0,
5917,0,5918,2,
5909,5918,5919,0,
5906,0,5920,2,
5915,5920,5921,0,
5921,0,5922,2,
5919,5922,5923,0,
5923,49,5924,1,
5923,49,5925,0,
5924,5925,5926,1,
612,5534,5927,1,
5927,0,5928,2,
5525,5928,5929,1,
5534,5929,5930,1,
5655,5930,5931,0,
5534,5931,5932,1,
49,0,5933,2,
5932,5933,5934,0,
5934,0,5935,2,
5926,5935,5936,0,
5923,0,5937,2,
5932,5937,5938,0,
5938,0,5939,2,
5936,5939,5940,0,
5940,50,5941,1,
5940,50,5942,0,
5941,5942,5943,1,
630,5551,5944,1,
5944,0,5945,2,
5542,5945,5946,1,
5551,5946,5947,1,
5655,5947,5948,0,
5551,5948,5949,1,
50,0,5950,2,
5949,5950,5951,0,
5951,0,5952,2,
5943,5952,5953,0,
5940,0,5954,2,
5949,5954,5955,0,
5955,0,5956,2,
5953,5956,5957,0,
5957,51,5958,1,
5957,51,5959,0,
5958,5959,5960,1,
265,5568,5961,1,
5961,0,5962,2,
5559,5962,5963,1,
5568,5963,5964,1,
5655,5964,5965,0,
5568,5965,5966,1,
51,0,5967,2,
5966,5967,5968,0,
5968,0,5969,2,
5960,5969,5970,0,
5957,0,5971,2,
5966,5971,5972,0,
5972,0,5973,2,
5970,5973,5974,0,
5974,52,5975,1,
5974,52,5976,0,
5975,5976,5977,1,
665,5585,5978,1,
5978,0,5979,2,
5576,5979,5980,1,
5585,5980,5981,1,
5655,5981,5982,0,
5585,5982,5983,1,
52,0,5984,2,
5983,5984,5985,0,
5985,0,5986,2,
5977,5986,5987,0,
5974,0,5988,2,
5983,5988,5989,0,
5989,0,5990,2,
5987,5990,5991,0,
5991,53,5992,1,
5991,53,5993,0,
5992,5993,5994,1,
683,5602,5995,1,
5995,0,5996,2,
5593,5996,5997,1,
5602,5997,5998,1,
5655,5998,5999,0,
5602,5999,6000,1,
53,0,6001,2,
6000,6001,6002,0,
6002,0,6003,2,
5994,6003,6004,0,
5991,0,6005,2,
6000,6005,6006,0,
6006,0,6007,2,
6004,6007,6008,0,
6008,54,6009,1,
6008,54,6010,0,
6009,6010,6011,1,
701,5619,6012,1,
6012,0,6013,2,
5610,6013,6014,1,
5619,6014,6015,1,
5655,6015,6016,0,
5619,6016,6017,1,
54,0,6018,2,
6017,6018,6019,0,
6019,0,6020,2,
6011,6020,6021,0,
6008,0,6022,2,
6017,6022,6023,0,
6023,0,6024,2,
6021,6024,6025,0,
6025,0,6026,2,
5667,6026,6027,0,
6027,0,6028,2,
5644,5286,6029,1,
6029,0,6030,2,
5286,6030,6031,1,
5655,6031,6032,0,
5286,6032,6033,1,
6033,0,6034,2,
6028,6034,6035,0,
6035,0,6036,2,
219,5661,6037,1,
6037,0,6038,2,
5878,6038,6039,1,
5661,6039,6040,1,
6036,6040,6041,0,
5661,6041,6042,1,
320,6017,6043,1,
6043,0,6044,2,
6008,6044,6045,1,
6017,6045,6046,1,
6036,6046,6047,0,
6017,6047,6048,1,
6036,32,6049,0,
33,0,6050,2,
6049,6050,6051,0,
6051,0,6052,2,
330,6052,6053,0,
32,0,6054,2,
6049,6054,6055,0,
6055,0,6056,2,
6053,6056,6057,0,
6057,34,6058,1,
6057,34,6059,0,
6058,6059,6060,1,
5668,736,6061,1,
5668,6061,6062,1,
6036,6062,6063,0,
5668,6063,6064,1,
34,0,6065,2,
6064,6065,6066,0,
6066,0,6067,2,
6060,6067,6068,0,
6057,0,6069,2,
6064,6069,6070,0,
6070,0,6071,2,
6068,6071,6072,0,
6072,35,6073,1,
6072,35,6074,0,
6073,6074,6075,1,
81,5683,6076,1,
6076,0,6077,2,
5676,6077,6078,1,
5683,6078,6079,1,
6036,6079,6080,0,
5683,6080,6081,1,
35,0,6082,2,
6081,6082,6083,0,
6083,0,6084,2,
6075,6084,6085,0,
6072,0,6086,2,
6081,6086,6087,0,
6087,0,6088,2,
6085,6088,6089,0,
6089,36,6090,1,
6089,36,6091,0,
6090,6091,6092,1,
381,5700,6093,1,
6093,0,6094,2,
5691,6094,6095,1,
5700,6095,6096,1,
6036,6096,6097,0,
5700,6097,6098,1,
36,0,6099,2,
6098,6099,6100,0,
6100,0,6101,2,
6092,6101,6102,0,
6089,0,6103,2,
6098,6103,6104,0,
6104,0,6105,2,
6102,6105,6106,0,
6106,37,6107,1,
6106,37,6108,0,
6107,6108,6109,1,
399,5717,6110,1,
6110,0,6111,2,
5708,6111,6112,1,
5717,6112,6113,1,
6036,6113,6114,0,
5717,6114,6115,1,
37,0,6116,2,
6115,6116,6117,0,
6117,0,6118,2,
6109,6118,6119,0,
6106,0,6120,2,
6115,6120,6121,0,
6121,0,6122,2,
6119,6122,6123,0,
6123,38,6124,1,
6123,38,6125,0,
6124,6125,6126,1,
417,5734,6127,1,
6127,0,6128,2,
5725,6128,6129,1,
5734,6129,6130,1,
6036,6130,6131,0,
5734,6131,6132,1,
38,0,6133,2,
6132,6133,6134,0,
6134,0,6135,2,
6126,6135,6136,0,
6123,0,6137,2,
6132,6137,6138,0,
6138,0,6139,2,
6136,6139,6140,0,
6140,39,6141,1,
6140,39,6142,0,
6141,6142,6143,1,
127,5751,6144,1,
6144,0,6145,2,
5742,6145,6146,1,
5751,6146,6147,1,
6036,6147,6148,0,
5751,6148,6149,1,
39,0,6150,2,
6149,6150,6151,0,
6151,0,6152,2,
6143,6152,6153,0,
6140,0,6154,2,
6149,6154,6155,0,
6155,0,6156,2,
6153,6156,6157,0,
6157,40,6158,1,
6157,40,6159,0,
6158,6159,6160,1,
452,5768,6161,1,
6161,0,6162,2,
5759,6162,6163,1,
5768,6163,6164,1,
6036,6164,6165,0,
5768,6165,6166,1,
40,0,6167,2,
6166,6167,6168,0,
6168,0,6169,2,
6160,6169,6170,0,
6157,0,6171,2,
6166,6171,6172,0,
6172,0,6173,2,
6170,6173,6174,0,
6174,41,6175,1,
6174,41,6176,0,
6175,6176,6177,1,
470,5785,6178,1,
6178,0,6179,2,
5776,6179,6180,1,
5785,6180,6181,1,
6036,6181,6182,0,
5785,6182,6183,1,
41,0,6184,2,
6183,6184,6185,0,
6185,0,6186,2,
6177,6186,6187,0,
6174,0,6188,2,
6183,6188,6189,0,
6189,0,6190,2,
6187,6190,6191,0,
6191,42,6192,1,
6191,42,6193,0,
6192,6193,6194,1,
488,5802,6195,1,
6195,0,6196,2,
5793,6196,6197,1,
5802,6197,6198,1,
6036,6198,6199,0,
5802,6199,6200,1,
42,0,6201,2,
6200,6201,6202,0,
6202,0,6203,2,
6194,6203,6204,0,
6191,0,6205,2,
6200,6205,6206,0,
6206,0,6207,2,
6204,6207,6208,0,
6208,43,6209,1,
6208,43,6210,0,
6209,6210,6211,1,
173,5819,6212,1,
6212,0,6213,2,
5810,6213,6214,1,
5819,6214,6215,1,
6036,6215,6216,0,
5819,6216,6217,1,
43,0,6218,2,
6217,6218,6219,0,
6219,0,6220,2,
6211,6220,6221,0,
6208,0,6222,2,
6217,6222,6223,0,
6223,0,6224,2,
6221,6224,6225,0,
6225,44,6226,1,
6225,44,6227,0,
6226,6227,6228,1,
523,5836,6229,1,
6229,0,6230,2,
5827,6230,6231,1,
5836,6231,6232,1,
6036,6232,6233,0,
5836,6233,6234,1,
44,0,6235,2,
6234,6235,6236,0,
6236,0,6237,2,
6228,6237,6238,0,
6225,0,6239,2,
6234,6239,6240,0,
6240,0,6241,2,
6238,6241,6242,0,
6242,45,6243,1,
6242,45,6244,0,
6243,6244,6245,1,
541,5853,6246,1,
6246,0,6247,2,
5844,6247,6248,1,
5853,6248,6249,1,
6036,6249,6250,0,
5853,6250,6251,1,
45,0,6252,2,
6251,6252,6253,0,
6253,0,6254,2,
6245,6254,6255,0,
6242,0,6256,2,
6251,6256,6257,0,
6257,0,6258,2,
6255,6258,6259,0,
6259,46,6260,1,
6259,46,6261,0,
6260,6261,6262,1,
559,5870,6263,1,
6263,0,6264,2,
5861,6264,6265,1,
5870,6265,6266,1,
6036,6266,6267,0,
5870,6267,6268,1,
46,0,6269,2,
6268,6269,6270,0,
6270,0,6271,2,
6262,6271,6272,0,
6259,0,6273,2,
6268,6273,6274,0,
6274,0,6275,2,
6272,6275,6276,0,
6276,47,6277,1,
6276,47,6278,0,
6277,6278,6279,1,
47,0,6280,2,
6042,6280,6281,0,
6281,0,6282,2,
6279,6282,6283,0,
6276,0,6284,2,
6042,6284,6285,0,
6285,0,6286,2,
6283,6286,6287,0,
6287,48,6288,1,
6287,48,6289,0,
6288,6289,6290,1,
594,5898,6291,1,
6291,0,6292,2,
5889,6292,6293,1,
5898,6293,6294,1,
6036,6294,6295,0,
5898,6295,6296,1,
48,0,6297,2,
6296,6297,6298,0,
6298,0,6299,2,
6290,6299,6300,0,
6287,0,6301,2,
6296,6301,6302,0,
6302,0,6303,2,
6300,6303,6304,0,
6304,49,6305,1,
6304,49,6306,0,
6305,6306,6307,1,
612,5915,6308,1,
6308,0,6309,2,
5906,6309,6310,1,
5915,6310,6311,1,
6036,6311,6312,0,
5915,6312,6313,1,
49,0,6314,2,
6313,6314,6315,0,
6315,0,6316,2,
6307,6316,6317,0,
6304,0,6318,2,
6313,6318,6319,0,
6319,0,6320,2,
6317,6320,6321,0,
6321,50,6322,1,
6321,50,6323,0,
6322,6323,6324,1,
630,5932,6325,1,
6325,0,6326,2,
5923,6326,6327,1,
5932,6327,6328,1,
6036,6328,6329,0,
5932,6329,6330,1,
50,0,6331,2,
6330,6331,6332,0,
6332,0,6333,2,
6324,6333,6334,0,
6321,0,6335,2,
6330,6335,6336,0,
6336,0,6337,2,
6334,6337,6338,0,
6338,51,6339,1,
6338,51,6340,0,
6339,6340,6341,1,
265,5949,6342,1,
6342,0,6343,2,
5940,6343,6344,1,
5949,6344,6345,1,
6036,6345,6346,0,
5949,6346,6347,1,
51,0,6348,2,
6347,6348,6349,0,
6349,0,6350,2,
6341,6350,6351,0,
6338,0,6352,2,
6347,6352,6353,0,
6353,0,6354,2,
6351,6354,6355,0,
6355,52,6356,1,
6355,52,6357,0,
6356,6357,6358,1,
665,5966,6359,1,
6359,0,6360,2,
5957,6360,6361,1,
5966,6361,6362,1,
6036,6362,6363,0,
5966,6363,6364,1,
52,0,6365,2,
6364,6365,6366,0,
6366,0,6367,2,
6358,6367,6368,0,
6355,0,6369,2,
6364,6369,6370,0,
6370,0,6371,2,
6368,6371,6372,0,
6372,53,6373,1,
6372,53,6374,0,
6373,6374,6375,1,
683,5983,6376,1,
6376,0,6377,2,
5974,6377,6378,1,
5983,6378,6379,1,
6036,6379,6380,0,
5983,6380,6381,1,
53,0,6382,2,
6381,6382,6383,0,
6383,0,6384,2,
6375,6384,6385,0,
6372,0,6386,2,
6381,6386,6387,0,
6387,0,6388,2,
6385,6388,6389,0,
6389,54,6390,1,
6389,54,6391,0,
6390,6391,6392,1,
701,6000,6393,1,
6393,0,6394,2,
5991,6394,6395,1,
6000,6395,6396,1,
6036,6396,6397,0,
6000,6397,6398,1,
54,0,6399,2,
6398,6399,6400,0,
6400,0,6401,2,
6392,6401,6402,0,
6389,0,6403,2,
6398,6403,6404,0,
6404,0,6405,2,
6402,6405,6406,0,
6406,0,6407,2,
6048,6407,6408,0,
6408,0,6409,2,
6025,5667,6410,1,
6410,0,6411,2,
5667,6411,6412,1,
6036,6412,6413,0,
5667,6413,6414,1,
6414,0,6415,2,
6409,6415,6416,0,
6416,0,6417,2,
594,6042,6418,1,
6418,0,6419,2,
6276,6419,6420,1,
6042,6420,6421,1,
6417,6421,6422,0,
6042,6422,6423,1,
320,6398,6424,1,
6424,0,6425,2,
6389,6425,6426,1,
6398,6426,6427,1,
6417,6427,6428,0,
6398,6428,6429,1,
6417,32,6430,0,
33,0,6431,2,
6430,6431,6432,0,
6432,0,6433,2,
330,6433,6434,0,
32,0,6435,2,
6430,6435,6436,0,
6436,0,6437,2,
6434,6437,6438,0,
6438,34,6439,1,
6438,34,6440,0,
6439,6440,6441,1,
6049,736,6442,1,
6049,6442,6443,1,
6417,6443,6444,0,
6049,6444,6445,1,
34,0,6446,2,
6445,6446,6447,0,
6447,0,6448,2,
6441,6448,6449,0,
6438,0,6450,2,
6445,6450,6451,0,
6451,0,6452,2,
6449,6452,6453,0,
6453,35,6454,1,
6453,35,6455,0,
6454,6455,6456,1,
81,6064,6457,1,
6457,0,6458,2,
6057,6458,6459,1,
6064,6459,6460,1,
6417,6460,6461,0,
6064,6461,6462,1,
35,0,6463,2,
6462,6463,6464,0,
6464,0,6465,2,
6456,6465,6466,0,
6453,0,6467,2,
6462,6467,6468,0,
6468,0,6469,2,
6466,6469,6470,0,
6470,36,6471,1,
6470,36,6472,0,
6471,6472,6473,1,
381,6081,6474,1,
6474,0,6475,2,
6072,6475,6476,1,
6081,6476,6477,1,
6417,6477,6478,0,
6081,6478,6479,1,
36,0,6480,2,
6479,6480,6481,0,
6481,0,6482,2,
6473,6482,6483,0,
6470,0,6484,2,
6479,6484,6485,0,
6485,0,6486,2,
6483,6486,6487,0,
6487,37,6488,1,
6487,37,6489,0,
6488,6489,6490,1,
399,6098,6491,1,
6491,0,6492,2,
6089,6492,6493,1,
6098,6493,6494,1,
6417,6494,6495,0,
6098,6495,6496,1,
37,0,6497,2,
6496,6497,6498,0,
6498,0,6499,2,
6490,6499,6500,0,
6487,0,6501,2,
6496,6501,6502,0,
6502,0,6503,2,
6500,6503,6504,0,
6504,38,6505,1,
6504,38,6506,0,
6505,6506,6507,1,
417,6115,6508,1,
6508,0,6509,2,
6106,6509,6510,1,
6115,6510,6511,1,
6417,6511,6512,0,
6115,6512,6513,1,
38,0,6514,2,
6513,6514,6515,0,
6515,0,6516,2,
6507,6516,6517,0,
6504,0,6518,2,
6513,6518,6519,0,
6519,0,6520,2,
6517,6520,6521,0,
6521,39,6522,1,
6521,39,6523,0,
6522,6523,6524,1,
127,6132,6525,1,
6525,0,6526,2,
6123,6526,6527,1,
6132,6527,6528,1,
6417,6528,6529,0,
6132,6529,6530,1,
39,0,6531,2,
6530,6531,6532,0,
6532,0,6533,2,
6524,6533,6534,0,
6521,0,6535,2,
6530,6535,6536,0,
6536,0,6537,2,
6534,6537,6538,0,
6538,40,6539,1,
6538,40,6540,0,
6539,6540,6541,1,
452,6149,6542,1,
6542,0,6543,2,
6140,6543,6544,1,
6149,6544,6545,1,
6417,6545,6546,0,
6149,6546,6547,1,
40,0,6548,2,
6547,6548,6549,0,
6549,0,6550,2,
6541,6550,6551,0,
6538,0,6552,2,
6547,6552,6553,0,
6553,0,6554,2,
6551,6554,6555,0,
6555,41,6556,1,
6555,41,6557,0,
6556,6557,6558,1,
470,6166,6559,1,
6559,0,6560,2,
6157,6560,6561,1,
6166,6561,6562,1,
6417,6562,6563,0,
6166,6563,6564,1,
41,0,6565,2,
6564,6565,6566,0,
6566,0,6567,2,
6558,6567,6568,0,
6555,0,6569,2,
6564,6569,6570,0,
6570,0,6571,2,
6568,6571,6572,0,
6572,42,6573,1,
6572,42,6574,0,
6573,6574,6575,1,
488,6183,6576,1,
6576,0,6577,2,
6174,6577,6578,1,
6183,6578,6579,1,
6417,6579,6580,0,
6183,6580,6581,1,
42,0,6582,2,
6581,6582,6583,0,
6583,0,6584,2,
6575,6584,6585,0,
6572,0,6586,2,
6581,6586,6587,0,
6587,0,6588,2,
6585,6588,6589,0,
6589,43,6590,1,
6589,43,6591,0,
6590,6591,6592,1,
173,6200,6593,1,
6593,0,6594,2,
6191,6594,6595,1,
6200,6595,6596,1,
6417,6596,6597,0,
6200,6597,6598,1,
43,0,6599,2,
6598,6599,6600,0,
6600,0,6601,2,
6592,6601,6602,0,
6589,0,6603,2,
6598,6603,6604,0,
6604,0,6605,2,
6602,6605,6606,0,
6606,44,6607,1,
6606,44,6608,0,
6607,6608,6609,1,
523,6217,6610,1,
6610,0,6611,2,
6208,6611,6612,1,
6217,6612,6613,1,
6417,6613,6614,0,
6217,6614,6615,1,
44,0,6616,2,
6615,6616,6617,0,
6617,0,6618,2,
6609,6618,6619,0,
6606,0,6620,2,
6615,6620,6621,0,
6621,0,6622,2,
6619,6622,6623,0,
6623,45,6624,1,
6623,45,6625,0,
6624,6625,6626,1,
541,6234,6627,1,
6627,0,6628,2,
6225,6628,6629,1,
6234,6629,6630,1,
6417,6630,6631,0,
6234,6631,6632,1,
45,0,6633,2,
6632,6633,6634,0,
6634,0,6635,2,
6626,6635,6636,0,
6623,0,6637,2,
6632,6637,6638,0,
6638,0,6639,2,
6636,6639,6640,0,
6640,46,6641,1,
6640,46,6642,0,
6641,6642,6643,1,
559,6251,6644,1,
6644,0,6645,2,
6242,6645,6646,1,
6251,6646,6647,1,
6417,6647,6648,0,
6251,6648,6649,1,
46,0,6650,2,
6649,6650,6651,0,
6651,0,6652,2,
6643,6652,6653,0,
6640,0,6654,2,
6649,6654,6655,0,
6655,0,6656,2,
6653,6656,6657,0,
6657,47,6658,1,
6657,47,6659,0,
6658,6659,6660,1,
219,6268,6661,1,
6661,0,6662,2,
6259,6662,6663,1,
6268,6663,6664,1,
6417,6664,6665,0,
6268,6665,6666,1,
47,0,6667,2,
6666,6667,6668,0,
6668,0,6669,2,
6660,6669,6670,0,
6657,0,6671,2,
6666,6671,6672,0,
6672,0,6673,2,
6670,6673,6674,0,
6674,48,6675,1,
6674,48,6676,0,
6675,6676,6677,1,
48,0,6678,2,
6423,6678,6679,0,
6679,0,6680,2,
6677,6680,6681,0,
6674,0,6682,2,
6423,6682,6683,0,
6683,0,6684,2,
6681,6684,6685,0,
6685,49,6686,1,
6685,49,6687,0,
6686,6687,6688,1,
612,6296,6689,1,
6689,0,6690,2,
6287,6690,6691,1,
6296,6691,6692,1,
6417,6692,6693,0,
6296,6693,6694,1,
49,0,6695,2,
6694,6695,6696,0,
6696,0,6697,2,
6688,6697,6698,0,
6685,0,6699,2,
6694,6699,6700,0,
6700,0,6701,2,
6698,6701,6702,0,
6702,50,6703,1,
6702,50,6704,0,
6703,6704,6705,1,
630,6313,6706,1,
6706,0,6707,2,
6304,6707,6708,1,
6313,6708,6709,1,
6417,6709,6710,0,
6313,6710,6711,1,
50,0,6712,2,
6711,6712,6713,0,
6713,0,6714,2,
6705,6714,6715,0,
6702,0,6716,2,
6711,6716,6717,0,
6717,0,6718,2,
6715,6718,6719,0,
6719,51,6720,1,
6719,51,6721,0,
6720,6721,6722,1,
265,6330,6723,1,
6723,0,6724,2,
6321,6724,6725,1,
6330,6725,6726,1,
6417,6726,6727,0,
6330,6727,6728,1,
51,0,6729,2,
6728,6729,6730,0,
6730,0,6731,2,
6722,6731,6732,0,
6719,0,6733,2,
6728,6733,6734,0,
6734,0,6735,2,
6732,6735,6736,0,
6736,52,6737,1,
6736,52,6738,0,
6737,6738,6739,1,
665,6347,6740,1,
6740,0,6741,2,
6338,6741,6742,1,
6347,6742,6743,1,
6417,6743,6744,0,
6347,6744,6745,1,
52,0,6746,2,
6745,6746,6747,0,
6747,0,6748,2,
6739,6748,6749,0,
6736,0,6750,2,
6745,6750,6751,0,
6751,0,6752,2,
6749,6752,6753,0,
6753,53,6754,1,
6753,53,6755,0,
6754,6755,6756,1,
683,6364,6757,1,
6757,0,6758,2,
6355,6758,6759,1,
6364,6759,6760,1,
6417,6760,6761,0,
6364,6761,6762,1,
53,0,6763,2,
6762,6763,6764,0,
6764,0,6765,2,
6756,6765,6766,0,
6753,0,6767,2,
6762,6767,6768,0,
6768,0,6769,2,
6766,6769,6770,0,
6770,54,6771,1,
6770,54,6772,0,
6771,6772,6773,1,
701,6381,6774,1,
6774,0,6775,2,
6372,6775,6776,1,
6381,6776,6777,1,
6417,6777,6778,0,
6381,6778,6779,1,
54,0,6780,2,
6779,6780,6781,0,
6781,0,6782,2,
6773,6782,6783,0,
6770,0,6784,2,
6779,6784,6785,0,
6785,0,6786,2,
6783,6786,6787,0,
6787,0,6788,2,
6429,6788,6789,0,
6789,0,6790,2,
6406,6048,6791,1,
6791,0,6792,2,
6048,6792,6793,1,
6417,6793,6794,0,
6048,6794,6795,1,
6795,0,6796,2,
6790,6796,6797,0,
6797,0,6798,2,
612,6423,6799,1,
6799,0,6800,2,
6674,6800,6801,1,
6423,6801,6802,1,
6798,6802,6803,0,
6423,6803,6804,1,
320,6779,6805,1,
6805,0,6806,2,
6770,6806,6807,1,
6779,6807,6808,1,
6798,6808,6809,0,
6779,6809,6810,1,
6798,32,6811,0,
33,0,6812,2,
6811,6812,6813,0,
6813,0,6814,2,
330,6814,6815,0,
32,0,6816,2,
6811,6816,6817,0,
6817,0,6818,2,
6815,6818,6819,0,
6819,34,6820,1,
6819,34,6821,0,
6820,6821,6822,1,
6430,736,6823,1,
6430,6823,6824,1,
6798,6824,6825,0,
6430,6825,6826,1,
34,0,6827,2,
6826,6827,6828,0,
6828,0,6829,2,
6822,6829,6830,0,
6819,0,6831,2,
6826,6831,6832,0,
6832,0,6833,2,
6830,6833,6834,0,
6834,35,6835,1,
6834,35,6836,0,
6835,6836,6837,1,
81,6445,6838,1,
6838,0,6839,2,
6438,6839,6840,1,
6445,6840,6841,1,
6798,6841,6842,0,
6445,6842,6843,1,
35,0,6844,2,
6843,6844,6845,0,
6845,0,6846,2,
6837,6846,6847,0,
6834,0,6848,2,
6843,6848,6849,0,
6849,0,6850,2,
6847,6850,6851,0,
6851,36,6852,1,
6851,36,6853,0,
6852,6853,6854,1,
381,6462,6855,1,
6855,0,6856,2,
6453,6856,6857,1,
6462,6857,6858,1,
6798,6858,6859,0,
6462,6859,6860,1,
36,0,6861,2,
6860,6861,6862,0,
6862,0,6863,2,
6854,6863,6864,0,
6851,0,6865,2,
6860,6865,6866,0,
6866,0,6867,2,
6864,6867,6868,0,
6868,37,6869,1,
6868,37,6870,0,
6869,6870,6871,1,
399,6479,6872,1,
6872,0,6873,2,
6470,6873,6874,1,
6479,6874,6875,1,
6798,6875,6876,0,
6479,6876,6877,1,
37,0,6878,2,
6877,6878,6879,0,
6879,0,6880,2,
6871,6880,6881,0,
6868,0,6882,2,
6877,6882,6883,0,
6883,0,6884,2,
6881,6884,6885,0,
6885,38,6886,1,
6885,38,6887,0,
6886,6887,6888,1,
417,6496,6889,1,
6889,0,6890,2,
6487,6890,6891,1,
6496,6891,6892,1,
6798,6892,6893,0,
6496,6893,6894,1,
38,0,6895,2,
6894,6895,6896,0,
6896,0,6897,2,
6888,6897,6898,0,
6885,0,6899,2,
6894,6899,6900,0,
6900,0,6901,2,
6898,6901,6902,0,
6902,39,6903,1,
6902,39,6904,0,
6903,6904,6905,1,
127,6513,6906,1,
6906,0,6907,2,
6504,6907,6908,1,
6513,6908,6909,1,
6798,6909,6910,0,
6513,6910,6911,1,
39,0,6912,2,
6911,6912,6913,0,
6913,0,6914,2,
6905,6914,6915,0,
6902,0,6916,2,
6911,6916,6917,0,
6917,0,6918,2,
6915,6918,6919,0,
6919,40,6920,1,
6919,40,6921,0,
6920,6921,6922,1,
452,6530,6923,1,
6923,0,6924,2,
6521,6924,6925,1,
6530,6925,6926,1,
6798,6926,6927,0,
6530,6927,6928,1,
40,0,6929,2,
6928,6929,6930,0,
6930,0,6931,2,
6922,6931,6932,0,
6919,0,6933,2,
6928,6933,6934,0,
6934,0,6935,2,
6932,6935,6936,0,
6936,41,6937,1,
6936,41,6938,0,
6937,6938,6939,1,
470,6547,6940,1,
6940,0,6941,2,
6538,6941,6942,1,
6547,6942,6943,1,
6798,6943,6944,0,
6547,6944,6945,1,
41,0,6946,2,
6945,6946,6947,0,
6947,0,6948,2,
6939,6948,6949,0,
6936,0,6950,2,
6945,6950,6951,0,
6951,0,6952,2,
6949,6952,6953,0,
6953,42,6954,1,
6953,42,6955,0,
6954,6955,6956,1,
488,6564,6957,1,
6957,0,6958,2,
6555,6958,6959,1,
6564,6959,6960,1,
6798,6960,6961,0,
6564,6961,6962,1,
42,0,6963,2,
6962,6963,6964,0,
6964,0,6965,2,
6956,6965,6966,0,
6953,0,6967,2,
6962,6967,6968,0,
6968,0,6969,2,
6966,6969,6970,0,
6970,43,6971,1,
6970,43,6972,0,
6971,6972,6973,1,
173,6581,6974,1,
6974,0,6975,2,
6572,6975,6976,1,
6581,6976,6977,1,
6798,6977,6978,0,
6581,6978,6979,1,
43,0,6980,2,
6979,6980,6981,0,
6981,0,6982,2,
6973,6982,6983,0,
6970,0,6984,2,
6979,6984,6985,0,
6985,0,6986,2,
6983,6986,6987,0,
6987,44,6988,1,
6987,44,6989,0,
6988,6989,6990,1,
523,6598,6991,1,
6991,0,6992,2,
6589,6992,6993,1,
6598,6993,6994,1,
6798,6994,6995,0,
6598,6995,6996,1,
44,0,6997,2,
6996,6997,6998,0,
6998,0,6999,2,
6990,6999,7000,0,
6987,0,7001,2,
6996,7001,7002,0,
7002,0,7003,2,
7000,7003,7004,0,
7004,45,7005,1,
7004,45,7006,0,
7005,7006,7007,1,
541,6615,7008,1,
7008,0,7009,2,
6606,7009,7010,1,
6615,7010,7011,1,
6798,7011,7012,0,
6615,7012,7013,1,
45,0,7014,2,
7013,7014,7015,0,
7015,0,7016,2,
7007,7016,7017,0,
7004,0,7018,2,
7013,7018,7019,0,
7019,0,7020,2,
7017,7020,7021,0,
7021,46,7022,1,
7021,46,7023,0,
7022,7023,7024,1,
559,6632,7025,1,
7025,0,7026,2,
6623,7026,7027,1,
6632,7027,7028,1,
6798,7028,7029,0,
6632,7029,7030,1,
46,0,7031,2,
7030,7031,7032,0,
7032,0,7033,2,
7024,7033,7034,0,
7021,0,7035,2,
7030,7035,7036,0,
7036,0,7037,2,
7034,7037,7038,0,
7038,47,7039,1,
7038,47,7040,0,
7039,7040,7041,1,
219,6649,7042,1,
7042,0,7043,2,
6640,7043,7044,1,
6649,7044,7045,1,
6798,7045,7046,0,
6649,7046,7047,1,
47,0,7048,2,
7047,7048,7049,0,
7049,0,7050,2,
7041,7050,7051,0,
7038,0,7052,2,
7047,7052,7053,0,
7053,0,7054,2,
7051,7054,7055,0,
7055,48,7056,1,
7055,48,7057,0,
7056,7057,7058,1,
594,6666,7059,1,
7059,0,7060,2,
6657,7060,7061,1,
6666,7061,7062,1,
6798,7062,7063,0,
6666,7063,7064,1,
48,0,7065,2,
7064,7065,7066,0,
7066,0,7067,2,
7058,7067,7068,0,
7055,0,7069,2,
7064,7069,7070,0,
7070,0,7071,2,
7068,7071,7072,0,
7072,49,7073,1,
7072,49,7074,0,
7073,7074,7075,1,
49,0,7076,2,
6804,7076,7077,0,
7077,0,7078,2,
7075,7078,7079,0,
7072,0,7080,2,
6804,7080,7081,0,
7081,0,7082,2,
7079,7082,7083,0,
7083,50,7084,1,
7083,50,7085,0,
7084,7085,7086,1,
630,6694,7087,1,
7087,0,7088,2,
6685,7088,7089,1,
6694,7089,7090,1,
6798,7090,7091,0,
6694,7091,7092,1,
50,0,7093,2,
7092,7093,7094,0,
7094,0,7095,2,
7086,7095,7096,0,
7083,0,7097,2,
7092,7097,7098,0,
7098,0,7099,2,
7096,7099,7100,0,
7100,51,7101,1,
7100,51,7102,0,
7101,7102,7103,1,
265,6711,7104,1,
7104,0,7105,2,
6702,7105,7106,1,
6711,7106,7107,1,
6798,7107,7108,0,
6711,7108,7109,1,
51,0,7110,2,
7109,7110,7111,0,
7111,0,7112,2,
7103,7112,7113,0,
7100,0,7114,2,
7109,7114,7115,0,
7115,0,7116,2,
7113,7116,7117,0,
7117,52,7118,1,
7117,52,7119,0,
7118,7119,7120,1,
665,6728,7121,1,
7121,0,7122,2,
6719,7122,7123,1,
6728,7123,7124,1,
6798,7124,7125,0,
6728,7125,7126,1,
52,0,7127,2,
7126,7127,7128,0,
7128,0,7129,2,
7120,7129,7130,0,
7117,0,7131,2,
7126,7131,7132,0,
7132,0,7133,2,
7130,7133,7134,0,
7134,53,7135,1,
7134,53,7136,0,
7135,7136,7137,1,
683,6745,7138,1,
7138,0,7139,2,
6736,7139,7140,1,
6745,7140,7141,1,
6798,7141,7142,0,
6745,7142,7143,1,
53,0,7144,2,
7143,7144,7145,0,
7145,0,7146,2,
7137,7146,7147,0,
7134,0,7148,2,
7143,7148,7149,0,
7149,0,7150,2,
7147,7150,7151,0,
7151,54,7152,1,
7151,54,7153,0,
7152,7153,7154,1,
701,6762,7155,1,
7155,0,7156,2,
6753,7156,7157,1,
6762,7157,7158,1,
6798,7158,7159,0,
6762,7159,7160,1,
54,0,7161,2,
7160,7161,7162,0,
7162,0,7163,2,
7154,7163,7164,0,
7151,0,7165,2,
7160,7165,7166,0,
7166,0,7167,2,
7164,7167,7168,0,
7168,0,7169,2,
6810,7169,7170,0,
7170,0,7171,2,
6787,6429,7172,1,
7172,0,7173,2,
6429,7173,7174,1,
6798,7174,7175,0,
6429,7175,7176,1,
7176,0,7177,2,
7171,7177,7178,0,
7178,0,7179,2,
630,6804,7180,1,
7180,0,7181,2,
7072,7181,7182,1,
6804,7182,7183,1,
7179,7183,7184,0,
6804,7184,7185,1,
320,7160,7186,1,
7186,0,7187,2,
7151,7187,7188,1,
7160,7188,7189,1,
7179,7189,7190,0,
7160,7190,7191,1,
7179,32,7192,0,
33,0,7193,2,
7192,7193,7194,0,
7194,0,7195,2,
330,7195,7196,0,
32,0,7197,2,
7192,7197,7198,0,
7198,0,7199,2,
7196,7199,7200,0,
7200,34,7201,1,
7200,34,7202,0,
7201,7202,7203,1,
6811,736,7204,1,
6811,7204,7205,1,
7179,7205,7206,0,
6811,7206,7207,1,
34,0,7208,2,
7207,7208,7209,0,
7209,0,7210,2,
7203,7210,7211,0,
7200,0,7212,2,
7207,7212,7213,0,
7213,0,7214,2,
7211,7214,7215,0,
7215,35,7216,1,
7215,35,7217,0,
7216,7217,7218,1,
81,6826,7219,1,
7219,0,7220,2,
6819,7220,7221,1,
6826,7221,7222,1,
7179,7222,7223,0,
6826,7223,7224,1,
35,0,7225,2,
7224,7225,7226,0,
7226,0,7227,2,
7218,7227,7228,0,
7215,0,7229,2,
7224,7229,7230,0,
7230,0,7231,2,
7228,7231,7232,0,
7232,36,7233,1,
7232,36,7234,0,
7233,7234,7235,1,
381,6843,7236,1,
7236,0,7237,2,
6834,7237,7238,1,
6843,7238,7239,1,
7179,7239,7240,0,
6843,7240,7241,1,
36,0,7242,2,
7241,7242,7243,0,
7243,0,7244,2,
7235,7244,7245,0,
7232,0,7246,2,
7241,7246,7247,0,
7247,0,7248,2,
7245,7248,7249,0,
7249,37,7250,1,
7249,37,7251,0,
7250,7251,7252,1,
399,6860,7253,1,
7253,0,7254,2,
6851,7254,7255,1,
6860,7255,7256,1,
7179,7256,7257,0,
6860,7257,7258,1,
37,0,7259,2,
7258,7259,7260,0,
7260,0,7261,2,
7252,7261,7262,0,
7249,0,7263,2,
7258,7263,7264,0,
7264,0,7265,2,
7262,7265,7266,0,
7266,38,7267,1,
7266,38,7268,0,
7267,7268,7269,1,
417,6877,7270,1,
7270,0,7271,2,
6868,7271,7272,1,
6877,7272,7273,1,
7179,7273,7274,0,
6877,7274,7275,1,
38,0,7276,2,
7275,7276,7277,0,
7277,0,7278,2,
7269,7278,7279,0,
7266,0,7280,2,
7275,7280,7281,0,
7281,0,7282,2,
7279,7282,7283,0,
7283,39,7284,1,
7283,39,7285,0,
7284,7285,7286,1,
127,6894,7287,1,
7287,0,7288,2,
6885,7288,7289,1,
6894,7289,7290,1,
7179,7290,7291,0,
6894,7291,7292,1,
39,0,7293,2,
7292,7293,7294,0,
7294,0,7295,2,
7286,7295,7296,0,
7283,0,7297,2,
7292,7297,7298,0,
7298,0,7299,2,
7296,7299,7300,0,
7300,40,7301,1,
7300,40,7302,0,
7301,7302,7303,1,
452,6911,7304,1,
7304,0,7305,2,
6902,7305,7306,1,
6911,7306,7307,1,
7179,7307,7308,0,
6911,7308,7309,1,
40,0,7310,2,
7309,7310,7311,0,
7311,0,7312,2,
7303,7312,7313,0,
7300,0,7314,2,
7309,7314,7315,0,
7315,0,7316,2,
7313,7316,7317,0,
7317,41,7318,1,
7317,41,7319,0,
7318,7319,7320,1,
470,6928,7321,1,
7321,0,7322,2,
6919,7322,7323,1,
6928,7323,7324,1,
7179,7324,7325,0,
6928,7325,7326,1,
41,0,7327,2,
7326,7327,7328,0,
7328,0,7329,2,
7320,7329,7330,0,
7317,0,7331,2,
7326,7331,7332,0,
7332,0,7333,2,
7330,7333,7334,0,
7334,42,7335,1,
7334,42,7336,0,
7335,7336,7337,1,
488,6945,7338,1,
7338,0,7339,2,
6936,7339,7340,1,
6945,7340,7341,1,
7179,7341,7342,0,
6945,7342,7343,1,
42,0,7344,2,
7343,7344,7345,0,
7345,0,7346,2,
7337,7346,7347,0,
7334,0,7348,2,
7343,7348,7349,0,
7349,0,7350,2,
7347,7350,7351,0,
7351,43,7352,1,
7351,43,7353,0,
7352,7353,7354,1,
173,6962,7355,1,
7355,0,7356,2,
6953,7356,7357,1,
6962,7357,7358,1,
7179,7358,7359,0,
6962,7359,7360,1,
43,0,7361,2,
7360,7361,7362,0,
7362,0,7363,2,
7354,7363,7364,0,
7351,0,7365,2,
7360,7365,7366,0,
7366,0,7367,2,
7364,7367,7368,0,
7368,44,7369,1,
7368,44,7370,0,
7369,7370,7371,1,
523,6979,7372,1,
7372,0,7373,2,
6970,7373,7374,1,
6979,7374,7375,1,
7179,7375,7376,0,
6979,7376,7377,1,
44,0,7378,2,
7377,7378,7379,0,
7379,0,7380,2,
7371,7380,7381,0,
7368,0,7382,2,
7377,7382,7383,0,
7383,0,7384,2,
7381,7384,7385,0,
7385,45,7386,1,
7385,45,7387,0,
7386,7387,7388,1,
541,6996,7389,1,
7389,0,7390,2,
6987,7390,7391,1,
6996,7391,7392,1,
7179,7392,7393,0,
6996,7393,7394,1,
45,0,7395,2,
7394,7395,7396,0,
7396,0,7397,2,
7388,7397,7398,0,
7385,0,7399,2,
7394,7399,7400,0,
7400,0,7401,2,
7398,7401,7402,0,
7402,46,7403,1,
7402,46,7404,0,
7403,7404,7405,1,
559,7013,7406,1,
7406,0,7407,2,
7004,7407,7408,1,
7013,7408,7409,1,
7179,7409,7410,0,
7013,7410,7411,1,
46,0,7412,2,
7411,7412,7413,0,
7413,0,7414,2,
7405,7414,7415,0,
7402,0,7416,2,
7411,7416,7417,0,
7417,0,7418,2,
7415,7418,7419,0,
7419,47,7420,1,
7419,47,7421,0,
7420,7421,7422,1,
219,7030,7423,1,
7423,0,7424,2,
7021,7424,7425,1,
7030,7425,7426,1,
7179,7426,7427,0,
7030,7427,7428,1,
47,0,7429,2,
7428,7429,7430,0,
7430,0,7431,2,
7422,7431,7432,0,
7419,0,7433,2,
7428,7433,7434,0,
7434,0,7435,2,
7432,7435,7436,0,
7436,48,7437,1,
7436,48,7438,0,
7437,7438,7439,1,
594,7047,7440,1,
7440,0,7441,2,
7038,7441,7442,1,
7047,7442,7443,1,
7179,7443,7444,0,
7047,7444,7445,1,
48,0,7446,2,
7445,7446,7447,0,
7447,0,7448,2,
7439,7448,7449,0,
7436,0,7450,2,
7445,7450,7451,0,
7451,0,7452,2,
7449,7452,7453,0,
7453,49,7454,1,
7453,49,7455,0,
7454,7455,7456,1,
612,7064,7457,1,
7457,0,7458,2,
7055,7458,7459,1,
7064,7459,7460,1,
7179,7460,7461,0,
7064,7461,7462,1,
49,0,7463,2,
7462,7463,7464,0,
7464,0,7465,2,
7456,7465,7466,0,
7453,0,7467,2,
7462,7467,7468,0,
7468,0,7469,2,
7466,7469,7470,0,
7470,50,7471,1,
7470,50,7472,0,
7471,7472,7473,1,
50,0,7474,2,
7185,7474,7475,0,
7475,0,7476,2,
7473,7476,7477,0,
7470,0,7478,2,
7185,7478,7479,0,
7479,0,7480,2,
7477,7480,7481,0,
7481,51,7482,1,
7481,51,7483,0,
7482,7483,7484,1,
265,7092,7485,1,
7485,0,7486,2,
7083,7486,7487,1,
7092,7487,7488,1,
7179,7488,7489,0,
7092,7489,7490,1,
51,0,7491,2,
7490,7491,7492,0,
7492,0,7493,2,
7484,7493,7494,0,
7481,0,7495,2,
7490,7495,7496,0,
7496,0,7497,2,
7494,7497,7498,0,
7498,52,7499,1,
7498,52,7500,0,
7499,7500,7501,1,
665,7109,7502,1,
7502,0,7503,2,
7100,7503,7504,1,
7109,7504,7505,1,
7179,7505,7506,0,
7109,7506,7507,1,
52,0,7508,2,
7507,7508,7509,0,
7509,0,7510,2,
7501,7510,7511,0,
7498,0,7512,2,
7507,7512,7513,0,
7513,0,7514,2,
7511,7514,7515,0,
7515,53,7516,1,
7515,53,7517,0,
7516,7517,7518,1,
683,7126,7519,1,
7519,0,7520,2,
7117,7520,7521,1,
7126,7521,7522,1,
7179,7522,7523,0,
7126,7523,7524,1,
53,0,7525,2,
7524,7525,7526,0,
7526,0,7527,2,
7518,7527,7528,0,
7515,0,7529,2,
7524,7529,7530,0,
7530,0,7531,2,
7528,7531,7532,0,
7532,54,7533,1,
7532,54,7534,0,
7533,7534,7535,1,
701,7143,7536,1,
7536,0,7537,2,
7134,7537,7538,1,
7143,7538,7539,1,
7179,7539,7540,0,
7143,7540,7541,1,
54,0,7542,2,
7541,7542,7543,0,
7543,0,7544,2,
7535,7544,7545,0,
7532,0,7546,2,
7541,7546,7547,0,
7547,0,7548,2,
7545,7548,7549,0,
7549,0,7550,2,
7191,7550,7551,0,
7551,0,7552,2,
7168,6810,7553,1,
7553,0,7554,2,
6810,7554,7555,1,
7179,7555,7556,0,
6810,7556,7557,1,
7557,0,7558,2,
7552,7558,7559,0,
7559,0,7560,2,
265,7185,7561,1,
7561,0,7562,2,
7470,7562,7563,1,
7185,7563,7564,1,
7560,7564,7565,0,
7185,7565,7566,1,
320,7541,7567,1,
7567,0,7568,2,
7532,7568,7569,1,
7541,7569,7570,1,
7560,7570,7571,0,
7541,7571,7572,1,
7560,32,7573,0,
33,0,7574,2,
7573,7574,7575,0,
7575,0,7576,2,
330,7576,7577,0,
32,0,7578,2,
7573,7578,7579,0,
7579,0,7580,2,
7577,7580,7581,0,
7581,34,7582,1,
7581,34,7583,0,
7582,7583,7584,1,
7192,736,7585,1,
7192,7585,7586,1,
7560,7586,7587,0,
7192,7587,7588,1,
34,0,7589,2,
7588,7589,7590,0,
7590,0,7591,2,
7584,7591,7592,0,
7581,0,7593,2,
7588,7593,7594,0,
7594,0,7595,2,
7592,7595,7596,0,
7596,35,7597,1,
7596,35,7598,0,
7597,7598,7599,1,
81,7207,7600,1,
7600,0,7601,2,
7200,7601,7602,1,
7207,7602,7603,1,
7560,7603,7604,0,
7207,7604,7605,1,
35,0,7606,2,
7605,7606,7607,0,
7607,0,7608,2,
7599,7608,7609,0,
7596,0,7610,2,
7605,7610,7611,0,
7611,0,7612,2,
7609,7612,7613,0,
7613,36,7614,1,
7613,36,7615,0,
7614,7615,7616,1,
381,7224,7617,1,
7617,0,7618,2,
7215,7618,7619,1,
7224,7619,7620,1,
7560,7620,7621,0,
7224,7621,7622,1,
36,0,7623,2,
7622,7623,7624,0,
7624,0,7625,2,
7616,7625,7626,0,
7613,0,7627,2,
7622,7627,7628,0,
7628,0,7629,2,
7626,7629,7630,0,
7630,37,7631,1,
7630,37,7632,0,
7631,7632,7633,1,
399,7241,7634,1,
7634,0,7635,2,
7232,7635,7636,1,
7241,7636,7637,1,
7560,7637,7638,0,
7241,7638,7639,1,
37,0,7640,2,
7639,7640,7641,0,
7641,0,7642,2,
7633,7642,7643,0,
7630,0,7644,2,
7639,7644,7645,0,
7645,0,7646,2,
7643,7646,7647,0,
7647,38,7648,1,
7647,38,7649,0,
7648,7649,7650,1,
417,7258,7651,1,
7651,0,7652,2,
7249,7652,7653,1,
7258,7653,7654,1,
7560,7654,7655,0,
7258,7655,7656,1,
38,0,7657,2,
7656,7657,7658,0,
7658,0,7659,2,
7650,7659,7660,0,
7647,0,7661,2,
7656,7661,7662,0,
7662,0,7663,2,
7660,7663,7664,0,
7664,39,7665,1,
7664,39,7666,0,
7665,7666,7667,1,
127,7275,7668,1,
7668,0,7669,2,
7266,7669,7670,1,
7275,7670,7671,1,
7560,7671,7672,0,
7275,7672,7673,1,
39,0,7674,2,
7673,7674,7675,0,
7675,0,7676,2,
7667,7676,7677,0,
7664,0,7678,2,
7673,7678,7679,0,
7679,0,7680,2,
7677,7680,7681,0,
7681,40,7682,1,
7681,40,7683,0,
7682,7683,7684,1,
452,7292,7685,1,
7685,0,7686,2,
7283,7686,7687,1,
7292,7687,7688,1,
7560,7688,7689,0,
7292,7689,7690,1,
40,0,7691,2,
7690,7691,7692,0,
7692,0,7693,2,
7684,7693,7694,0,
7681,0,7695,2,
7690,7695,7696,0,
7696,0,7697,2,
7694,7697,7698,0,
7698,41,7699,1,
7698,41,7700,0,
7699,7700,7701,1,
470,7309,7702,1,
7702,0,7703,2,
7300,7703,7704,1,
7309,7704,7705,1,
7560,7705,7706,0,
7309,7706,7707,1,
41,0,7708,2,
7707,7708,7709,0,
7709,0,7710,2,
7701,7710,7711,0,
7698,0,7712,2,
7707,7712,7713,0,
7713,0,7714,2,
7711,7714,7715,0,
7715,42,7716,1,
7715,42,7717,0,
7716,7717,7718,1,
488,7326,7719,1,
7719,0,7720,2,
7317,7720,7721,1,
7326,7721,7722,1,
7560,7722,7723,0,
7326,7723,7724,1,
42,0,7725,2,
7724,7725,7726,0,
7726,0,7727,2,
7718,7727,7728,0,
7715,0,7729,2,
7724,7729,7730,0,
7730,0,7731,2,
7728,7731,7732,0,
7732,43,7733,1,
7732,43,7734,0,
7733,7734,7735,1,
173,7343,7736,1,
7736,0,7737,2,
7334,7737,7738,1,
7343,7738,7739,1,
7560,7739,7740,0,
7343,7740,7741,1,
43,0,7742,2,
7741,7742,7743,0,
7743,0,7744,2,
7735,7744,7745,0,
7732,0,7746,2,
7741,7746,7747,0,
7747,0,7748,2,
7745,7748,7749,0,
7749,44,7750,1,
7749,44,7751,0,
7750,7751,7752,1,
523,7360,7753,1,
7753,0,7754,2,
7351,7754,7755,1,
7360,7755,7756,1,
7560,7756,7757,0,
7360,7757,7758,1,
44,0,7759,2,
7758,7759,7760,0,
7760,0,7761,2,
7752,7761,7762,0,
7749,0,7763,2,
7758,7763,7764,0,
7764,0,7765,2,
7762,7765,7766,0,
7766,45,7767,1,
7766,45,7768,0,
7767,7768,7769,1,
541,7377,7770,1,
7770,0,7771,2,
7368,7771,7772,1,
7377,7772,7773,1,
7560,7773,7774,0,
7377,7774,7775,1,
45,0,7776,2,
7775,7776,7777,0,
7777,0,7778,2,
7769,7778,7779,0,
7766,0,7780,2,
7775,7780,7781,0,
7781,0,7782,2,
7779,7782,7783,0,
7783,46,7784,1,
7783,46,7785,0,
7784,7785,7786,1,
559,7394,7787,1,
7787,0,7788,2,
7385,7788,7789,1,
7394,7789,7790,1,
7560,7790,7791,0,
7394,7791,7792,1,
46,0,7793,2,
7792,7793,7794,0,
7794,0,7795,2,
7786,7795,7796,0,
7783,0,7797,2,
7792,7797,7798,0,
7798,0,7799,2,
7796,7799,7800,0,
7800,47,7801,1,
7800,47,7802,0,
7801,7802,7803,1,
219,7411,7804,1,
7804,0,7805,2,
7402,7805,7806,1,
7411,7806,7807,1,
7560,7807,7808,0,
7411,7808,7809,1,
47,0,7810,2,
7809,7810,7811,0,
7811,0,7812,2,
7803,7812,7813,0,
7800,0,7814,2,
7809,7814,7815,0,
7815,0,7816,2,
7813,7816,7817,0,
7817,48,7818,1,
7817,48,7819,0,
7818,7819,7820,1,
594,7428,7821,1,
7821,0,7822,2,
7419,7822,7823,1,
7428,7823,7824,1,
7560,7824,7825,0,
7428,7825,7826,1,
48,0,7827,2,
7826,7827,7828,0,
7828,0,7829,2,
7820,7829,7830,0,
7817,0,7831,2,
7826,7831,7832,0,
7832,0,7833,2,
7830,7833,7834,0,
7834,49,7835,1,
7834,49,7836,0,
7835,7836,7837,1,
612,7445,7838,1,
7838,0,7839,2,
7436,7839,7840,1,
7445,7840,7841,1,
7560,7841,7842,0,
7445,7842,7843,1,
49,0,7844,2,
7843,7844,7845,0,
7845,0,7846,2,
7837,7846,7847,0,
7834,0,7848,2,
7843,7848,7849,0,
7849,0,7850,2,
7847,7850,7851,0,
7851,50,7852,1,
7851,50,7853,0,
7852,7853,7854,1,
630,7462,7855,1,
7855,0,7856,2,
7453,7856,7857,1,
7462,7857,7858,1,
7560,7858,7859,0,
7462,7859,7860,1,
50,0,7861,2,
7860,7861,7862,0,
7862,0,7863,2,
7854,7863,7864,0,
7851,0,7865,2,
7860,7865,7866,0,
7866,0,7867,2,
7864,7867,7868,0,
7868,51,7869,1,
7868,51,7870,0,
7869,7870,7871,1,
51,0,7872,2,
7566,7872,7873,0,
7873,0,7874,2,
7871,7874,7875,0,
7868,0,7876,2,
7566,7876,7877,0,
7877,0,7878,2,
7875,7878,7879,0,
7879,52,7880,1,
7879,52,7881,0,
7880,7881,7882,1,
665,7490,7883,1,
7883,0,7884,2,
7481,7884,7885,1,
7490,7885,7886,1,
7560,7886,7887,0,
7490,7887,7888,1,
52,0,7889,2,
7888,7889,7890,0,
7890,0,7891,2,
7882,7891,7892,0,
7879,0,7893,2,
7888,7893,7894,0,
7894,0,7895,2,
7892,7895,7896,0,
7896,53,7897,1,
7896,53,7898,0,
7897,7898,7899,1,
683,7507,7900,1,
7900,0,7901,2,
7498,7901,7902,1,
7507,7902,7903,1,
7560,7903,7904,0,
7507,7904,7905,1,
53,0,7906,2,
7905,7906,7907,0,
7907,0,7908,2,
7899,7908,7909,0,
7896,0,7910,2,
7905,7910,7911,0,
7911,0,7912,2,
7909,7912,7913,0,
7913,54,7914,1,
7913,54,7915,0,
7914,7915,7916,1,
701,7524,7917,1,
7917,0,7918,2,
7515,7918,7919,1,
7524,7919,7920,1,
7560,7920,7921,0,
7524,7921,7922,1,
54,0,7923,2,
7922,7923,7924,0,
7924,0,7925,2,
7916,7925,7926,0,
7913,0,7927,2,
7922,7927,7928,0,
7928,0,7929,2,
7926,7929,7930,0,
7930,0,7931,2,
7572,7931,7932,0,
7932,0,7933,2,
7549,7191,7934,1,
7934,0,7935,2,
7191,7935,7936,1,
7560,7936,7937,0,
7191,7937,7938,1,
7938,0,7939,2,
7933,7939,7940,0,
7940,0,7941,2,
665,7566,7942,1,
7942,0,7943,2,
7868,7943,7944,1,
7566,7944,7945,1,
7941,7945,7946,0,
7566,7946,7947,1,
320,7922,7948,1,
7948,0,7949,2,
7913,7949,7950,1,
7922,7950,7951,1,
7941,7951,7952,0,
7922,7952,7953,1,
7941,32,7954,0,
33,0,7955,2,
7954,7955,7956,0,
7956,0,7957,2,
330,7957,7958,0,
32,0,7959,2,
7954,7959,7960,0,
7960,0,7961,2,
7958,7961,7962,0,
7962,34,7963,1,
7962,34,7964,0,
7963,7964,7965,1,
7573,736,7966,1,
7573,7966,7967,1,
7941,7967,7968,0,
7573,7968,7969,1,
34,0,7970,2,
7969,7970,7971,0,
7971,0,7972,2,
7965,7972,7973,0,
7962,0,7974,2,
7969,7974,7975,0,
7975,0,7976,2,
7973,7976,7977,0,
7977,35,7978,1,
7977,35,7979,0,
7978,7979,7980,1,
81,7588,7981,1,
7981,0,7982,2,
7581,7982,7983,1,
7588,7983,7984,1,
7941,7984,7985,0,
7588,7985,7986,1,
35,0,7987,2,
7986,7987,7988,0,
7988,0,7989,2,
7980,7989,7990,0,
7977,0,7991,2,
7986,7991,7992,0,
7992,0,7993,2,
7990,7993,7994,0,
7994,36,7995,1,
7994,36,7996,0,
7995,7996,7997,1,
381,7605,7998,1,
7998,0,7999,2,
7596,7999,8000,1,
7605,8000,8001,1,
7941,8001,8002,0,
7605,8002,8003,1,
36,0,8004,2,
8003,8004,8005,0,
8005,0,8006,2,
7997,8006,8007,0,
7994,0,8008,2,
8003,8008,8009,0,
8009,0,8010,2,
8007,8010,8011,0,
8011,37,8012,1,
8011,37,8013,0,
8012,8013,8014,1,
399,7622,8015,1,
8015,0,8016,2,
7613,8016,8017,1,
7622,8017,8018,1,
7941,8018,8019,0,
7622,8019,8020,1,
37,0,8021,2,
8020,8021,8022,0,
8022,0,8023,2,
8014,8023,8024,0,
8011,0,8025,2,
8020,8025,8026,0,
8026,0,8027,2,
8024,8027,8028,0,
8028,38,8029,1,
8028,38,8030,0,
8029,8030,8031,1,
417,7639,8032,1,
8032,0,8033,2,
7630,8033,8034,1,
7639,8034,8035,1,
7941,8035,8036,0,
7639,8036,8037,1,
38,0,8038,2,
8037,8038,8039,0,
8039,0,8040,2,
8031,8040,8041,0,
8028,0,8042,2,
8037,8042,8043,0,
8043,0,8044,2,
8041,8044,8045,0,
8045,39,8046,1,
8045,39,8047,0,
8046,8047,8048,1,
127,7656,8049,1,
8049,0,8050,2,
7647,8050,8051,1,
7656,8051,8052,1,
7941,8052,8053,0,
7656,8053,8054,1,
39,0,8055,2,
8054,8055,8056,0,
8056,0,8057,2,
8048,8057,8058,0,
8045,0,8059,2,
8054,8059,8060,0,
8060,0,8061,2,
8058,8061,8062,0,
8062,40,8063,1,
8062,40,8064,0,
8063,8064,8065,1,
452,7673,8066,1,
8066,0,8067,2,
7664,8067,8068,1,
7673,8068,8069,1,
7941,8069,8070,0,
7673,8070,8071,1,
40,0,8072,2,
8071,8072,8073,0,
8073,0,8074,2,
8065,8074,8075,0,
8062,0,8076,2,
8071,8076,8077,0,
8077,0,8078,2,
8075,8078,8079,0,
8079,41,8080,1,
8079,41,8081,0,
8080,8081,8082,1,
470,7690,8083,1,
8083,0,8084,2,
7681,8084,8085,1,
7690,8085,8086,1,
7941,8086,8087,0,
7690,8087,8088,1,
41,0,8089,2,
8088,8089,8090,0,
8090,0,8091,2,
8082,8091,8092,0,
8079,0,8093,2,
8088,8093,8094,0,
8094,0,8095,2,
8092,8095,8096,0,
8096,42,8097,1,
8096,42,8098,0,
8097,8098,8099,1,
488,7707,8100,1,
8100,0,8101,2,
7698,8101,8102,1,
7707,8102,8103,1,
7941,8103,8104,0,
7707,8104,8105,1,
42,0,8106,2,
8105,8106,8107,0,
8107,0,8108,2,
8099,8108,8109,0,
8096,0,8110,2,
8105,8110,8111,0,
8111,0,8112,2,
8109,8112,8113,0,
8113,43,8114,1,
8113,43,8115,0,
8114,8115,8116,1,
173,7724,8117,1,
8117,0,8118,2,
7715,8118,8119,1,
7724,8119,8120,1,
7941,8120,8121,0,
7724,8121,8122,1,
43,0,8123,2,
8122,8123,8124,0,
8124,0,8125,2,
8116,8125,8126,0,
8113,0,8127,2,
8122,8127,8128,0,
8128,0,8129,2,
8126,8129,8130,0,
8130,44,8131,1,
8130,44,8132,0,
8131,8132,8133,1,
523,7741,8134,1,
8134,0,8135,2,
7732,8135,8136,1,
7741,8136,8137,1,
7941,8137,8138,0,
7741,8138,8139,1,
44,0,8140,2,
8139,8140,8141,0,
8141,0,8142,2,
8133,8142,8143,0,
8130,0,8144,2,
8139,8144,8145,0,
8145,0,8146,2,
8143,8146,8147,0,
8147,45,8148,1,
8147,45,8149,0,
8148,8149,8150,1,
541,7758,8151,1,
8151,0,8152,2,
7749,8152,8153,1,
7758,8153,8154,1,
7941,8154,8155,0,
7758,8155,8156,1,
45,0,8157,2,
8156,8157,8158,0,
8158,0,8159,2,
8150,8159,8160,0,
8147,0,8161,2,
8156,8161,8162,0,
8162,0,8163,2,
8160,8163,8164,0,
8164,46,8165,1,
8164,46,8166,0,
8165,8166,8167,1,
559,7775,8168,1,
8168,0,8169,2,
7766,8169,8170,1,
7775,8170,8171,1,
7941,8171,8172,0,
7775,8172,8173,1,
46,0,8174,2,
8173,8174,8175,0,
8175,0,8176,2,
8167,8176,8177,0,
8164,0,8178,2,
8173,8178,8179,0,
8179,0,8180,2,
8177,8180,8181,0,
8181,47,8182,1,
8181,47,8183,0,
8182,8183,8184,1,
219,7792,8185,1,
8185,0,8186,2,
7783,8186,8187,1,
7792,8187,8188,1,
7941,8188,8189,0,
7792,8189,8190,1,
47,0,8191,2,
8190,8191,8192,0,
8192,0,8193,2,
8184,8193,8194,0,
8181,0,8195,2,
8190,8195,8196,0,
8196,0,8197,2,
8194,8197,8198,0,
8198,48,8199,1,
8198,48,8200,0,
8199,8200,8201,1,
594,7809,8202,1,
8202,0,8203,2,
7800,8203,8204,1,
7809,8204,8205,1,
7941,8205,8206,0,
7809,8206,8207,1,
48,0,8208,2,
8207,8208,8209,0,
8209,0,8210,2,
8201,8210,8211,0,
8198,0,8212,2,
8207,8212,8213,0,
8213,0,8214,2,
8211,8214,8215,0,
8215,49,8216,1,
8215,49,8217,0,
8216,8217,8218,1,
612,7826,8219,1,
8219,0,8220,2,
7817,8220,8221,1,
7826,8221,8222,1,
7941,8222,8223,0,
7826,8223,8224,1,
49,0,8225,2,
8224,8225,8226,0,
8226,0,8227,2,
8218,8227,8228,0,
8215,0,8229,2,
8224,8229,8230,0,
8230,0,8231,2,
8228,8231,8232,0,
8232,50,8233,1,
8232,50,8234,0,
8233,8234,8235,1,
630,7843,8236,1,
8236,0,8237,2,
7834,8237,8238,1,
7843,8238,8239,1,
7941,8239,8240,0,
7843,8240,8241,1,
50,0,8242,2,
8241,8242,8243,0,
8243,0,8244,2,
8235,8244,8245,0,
8232,0,8246,2,
8241,8246,8247,0,
8247,0,8248,2,
8245,8248,8249,0,
8249,51,8250,1,
8249,51,8251,0,
8250,8251,8252,1,
265,7860,8253,1,
8253,0,8254,2,
7851,8254,8255,1,
7860,8255,8256,1,
7941,8256,8257,0,
7860,8257,8258,1,
51,0,8259,2,
8258,8259,8260,0,
8260,0,8261,2,
8252,8261,8262,0,
8249,0,8263,2,
8258,8263,8264,0,
8264,0,8265,2,
8262,8265,8266,0,
8266,52,8267,1,
8266,52,8268,0,
8267,8268,8269,1,
52,0,8270,2,
7947,8270,8271,0,
8271,0,8272,2,
8269,8272,8273,0,
8266,0,8274,2,
7947,8274,8275,0,
8275,0,8276,2,
8273,8276,8277,0,
8277,53,8278,1,
8277,53,8279,0,
8278,8279,8280,1,
683,7888,8281,1,
8281,0,8282,2,
7879,8282,8283,1,
7888,8283,8284,1,
7941,8284,8285,0,
7888,8285,8286,1,
53,0,8287,2,
8286,8287,8288,0,
8288,0,8289,2,
8280,8289,8290,0,
8277,0,8291,2,
8286,8291,8292,0,
8292,0,8293,2,
8290,8293,8294,0,
8294,54,8295,1,
8294,54,8296,0,
8295,8296,8297,1,
701,7905,8298,1,
8298,0,8299,2,
7896,8299,8300,1,
7905,8300,8301,1,
7941,8301,8302,0,
7905,8302,8303,1,
54,0,8304,2,
8303,8304,8305,0,
8305,0,8306,2,
8297,8306,8307,0,
8294,0,8308,2,
8303,8308,8309,0,
8309,0,8310,2,
8307,8310,8311,0,
8311,0,8312,2,
7953,8312,8313,0,
8313,0,8314,2,
7930,7572,8315,1,
8315,0,8316,2,
7572,8316,8317,1,
7941,8317,8318,0,
7572,8318,8319,1,
8319,0,8320,2,
8314,8320,8321,0,
8321,0,8322,2,
683,7947,8323,1,
8323,0,8324,2,
8266,8324,8325,1,
7947,8325,8326,1,
8322,8326,8327,0,
7947,8327,8328,1,
320,8303,8329,1,
8329,0,8330,2,
8294,8330,8331,1,
8303,8331,8332,1,
8322,8332,8333,0,
8303,8333,8334,1,
8322,32,8335,0,
33,0,8336,2,
8335,8336,8337,0,
8337,0,8338,2,
330,8338,8339,0,
32,0,8340,2,
8335,8340,8341,0,
8341,0,8342,2,
8339,8342,8343,0,
8343,34,8344,1,
8343,34,8345,0,
8344,8345,8346,1,
7954,736,8347,1,
7954,8347,8348,1,
8322,8348,8349,0,
7954,8349,8350,1,
34,0,8351,2,
8350,8351,8352,0,
8352,0,8353,2,
8346,8353,8354,0,
8343,0,8355,2,
8350,8355,8356,0,
8356,0,8357,2,
8354,8357,8358,0,
8358,35,8359,1,
8358,35,8360,0,
8359,8360,8361,1,
81,7969,8362,1,
8362,0,8363,2,
7962,8363,8364,1,
7969,8364,8365,1,
8322,8365,8366,0,
7969,8366,8367,1,
35,0,8368,2,
8367,8368,8369,0,
8369,0,8370,2,
8361,8370,8371,0,
8358,0,8372,2,
8367,8372,8373,0,
8373,0,8374,2,
8371,8374,8375,0,
8375,36,8376,1,
8375,36,8377,0,
8376,8377,8378,1,
381,7986,8379,1,
8379,0,8380,2,
7977,8380,8381,1,
7986,8381,8382,1,
8322,8382,8383,0,
7986,8383,8384,1,
36,0,8385,2,
8384,8385,8386,0,
8386,0,8387,2,
8378,8387,8388,0,
8375,0,8389,2,
8384,8389,8390,0,
8390,0,8391,2,
8388,8391,8392,0,
8392,37,8393,1,
8392,37,8394,0,
8393,8394,8395,1,
399,8003,8396,1,
8396,0,8397,2,
7994,8397,8398,1,
8003,8398,8399,1,
8322,8399,8400,0,
8003,8400,8401,1,
37,0,8402,2,
8401,8402,8403,0,
8403,0,8404,2,
8395,8404,8405,0,
8392,0,8406,2,
8401,8406,8407,0,
8407,0,8408,2,
8405,8408,8409,0,
8409,38,8410,1,
8409,38,8411,0,
8410,8411,8412,1,
417,8020,8413,1,
8413,0,8414,2,
8011,8414,8415,1,
8020,8415,8416,1,
8322,8416,8417,0,
8020,8417,8418,1,
38,0,8419,2,
8418,8419,8420,0,
8420,0,8421,2,
8412,8421,8422,0,
8409,0,8423,2,
8418,8423,8424,0,
8424,0,8425,2,
8422,8425,8426,0,
8426,39,8427,1,
8426,39,8428,0,
8427,8428,8429,1,
127,8037,8430,1,
8430,0,8431,2,
8028,8431,8432,1,
8037,8432,8433,1,
8322,8433,8434,0,
8037,8434,8435,1,
39,0,8436,2,
8435,8436,8437,0,
8437,0,8438,2,
8429,8438,8439,0,
8426,0,8440,2,
8435,8440,8441,0,
8441,0,8442,2,
8439,8442,8443,0,
8443,40,8444,1,
8443,40,8445,0,
8444,8445,8446,1,
452,8054,8447,1,
8447,0,8448,2,
8045,8448,8449,1,
8054,8449,8450,1,
8322,8450,8451,0,
8054,8451,8452,1,
40,0,8453,2,
8452,8453,8454,0,
8454,0,8455,2,
8446,8455,8456,0,
8443,0,8457,2,
8452,8457,8458,0,
8458,0,8459,2,
8456,8459,8460,0,
8460,41,8461,1,
8460,41,8462,0,
8461,8462,8463,1,
470,8071,8464,1,
8464,0,8465,2,
8062,8465,8466,1,
8071,8466,8467,1,
8322,8467,8468,0,
8071,8468,8469,1,
41,0,8470,2,
8469,8470,8471,0,
8471,0,8472,2,
8463,8472,8473,0,
8460,0,8474,2,
8469,8474,8475,0,
8475,0,8476,2,
8473,8476,8477,0,
8477,42,8478,1,
8477,42,8479,0,
8478,8479,8480,1,
488,8088,8481,1,
8481,0,8482,2,
8079,8482,8483,1,
8088,8483,8484,1,
8322,8484,8485,0,
8088,8485,8486,1,
42,0,8487,2,
8486,8487,8488,0,
8488,0,8489,2,
8480,8489,8490,0,
8477,0,8491,2,
8486,8491,8492,0,
8492,0,8493,2,
8490,8493,8494,0,
8494,43,8495,1,
8494,43,8496,0,
8495,8496,8497,1,
173,8105,8498,1,
8498,0,8499,2,
8096,8499,8500,1,
8105,8500,8501,1,
8322,8501,8502,0,
8105,8502,8503,1,
43,0,8504,2,
8503,8504,8505,0,
8505,0,8506,2,
8497,8506,8507,0,
8494,0,8508,2,
8503,8508,8509,0,
8509,0,8510,2,
8507,8510,8511,0,
8511,44,8512,1,
8511,44,8513,0,
8512,8513,8514,1,
523,8122,8515,1,
8515,0,8516,2,
8113,8516,8517,1,
8122,8517,8518,1,
8322,8518,8519,0,
8122,8519,8520,1,
44,0,8521,2,
8520,8521,8522,0,
8522,0,8523,2,
8514,8523,8524,0,
8511,0,8525,2,
8520,8525,8526,0,
8526,0,8527,2,
8524,8527,8528,0,
8528,45,8529,1,
8528,45,8530,0,
8529,8530,8531,1,
541,8139,8532,1,
8532,0,8533,2,
8130,8533,8534,1,
8139,8534,8535,1,
8322,8535,8536,0,
8139,8536,8537,1,
45,0,8538,2,
8537,8538,8539,0,
8539,0,8540,2,
8531,8540,8541,0,
8528,0,8542,2,
8537,8542,8543,0,
8543,0,8544,2,
8541,8544,8545,0,
8545,46,8546,1,
8545,46,8547,0,
8546,8547,8548,1,
559,8156,8549,1,
8549,0,8550,2,
8147,8550,8551,1,
8156,8551,8552,1,
8322,8552,8553,0,
8156,8553,8554,1,
46,0,8555,2,
8554,8555,8556,0,
8556,0,8557,2,
8548,8557,8558,0,
8545,0,8559,2,
8554,8559,8560,0,
8560,0,8561,2,
8558,8561,8562,0,
8562,47,8563,1,
8562,47,8564,0,
8563,8564,8565,1,
219,8173,8566,1,
8566,0,8567,2,
8164,8567,8568,1,
8173,8568,8569,1,
8322,8569,8570,0,
8173,8570,8571,1,
47,0,8572,2,
8571,8572,8573,0,
8573,0,8574,2,
8565,8574,8575,0,
8562,0,8576,2,
8571,8576,8577,0,
8577,0,8578,2,
8575,8578,8579,0,
8579,48,8580,1,
8579,48,8581,0,
8580,8581,8582,1,
594,8190,8583,1,
8583,0,8584,2,
8181,8584,8585,1,
8190,8585,8586,1,
8322,8586,8587,0,
8190,8587,8588,1,
48,0,8589,2,
8588,8589,8590,0,
8590,0,8591,2,
8582,8591,8592,0,
8579,0,8593,2,
8588,8593,8594,0,
8594,0,8595,2,
8592,8595,8596,0,
8596,49,8597,1,
8596,49,8598,0,
8597,8598,8599,1,
612,8207,8600,1,
8600,0,8601,2,
8198,8601,8602,1,
8207,8602,8603,1,
8322,8603,8604,0,
8207,8604,8605,1,
49,0,8606,2,
8605,8606,8607,0,
8607,0,8608,2,
8599,8608,8609,0,
8596,0,8610,2,
8605,8610,8611,0,
8611,0,8612,2,
8609,8612,8613,0,
8613,50,8614,1,
8613,50,8615,0,
8614,8615,8616,1,
630,8224,8617,1,
8617,0,8618,2,
8215,8618,8619,1,
8224,8619,8620,1,
8322,8620,8621,0,
8224,8621,8622,1,
50,0,8623,2,
8622,8623,8624,0,
8624,0,8625,2,
8616,8625,8626,0,
8613,0,8627,2,
8622,8627,8628,0,
8628,0,8629,2,
8626,8629,8630,0,
8630,51,8631,1,
8630,51,8632,0,
8631,8632,8633,1,
265,8241,8634,1,
8634,0,8635,2,
8232,8635,8636,1,
8241,8636,8637,1,
8322,8637,8638,0,
8241,8638,8639,1,
51,0,8640,2,
8639,8640,8641,0,
8641,0,8642,2,
8633,8642,8643,0,
8630,0,8644,2,
8639,8644,8645,0,
8645,0,8646,2,
8643,8646,8647,0,
8647,52,8648,1,
8647,52,8649,0,
8648,8649,8650,1,
665,8258,8651,1,
8651,0,8652,2,
8249,8652,8653,1,
8258,8653,8654,1,
8322,8654,8655,0,
8258,8655,8656,1,
52,0,8657,2,
8656,8657,8658,0,
8658,0,8659,2,
8650,8659,8660,0,
8647,0,8661,2,
8656,8661,8662,0,
8662,0,8663,2,
8660,8663,8664,0,
8664,53,8665,1,
8664,53,8666,0,
8665,8666,8667,1,
53,0,8668,2,
8328,8668,8669,0,
8669,0,8670,2,
8667,8670,8671,0,
8664,0,8672,2,
8328,8672,8673,0,
8673,0,8674,2,
8671,8674,8675,0,
8675,54,8676,1,
8675,54,8677,0,
8676,8677,8678,1,
701,8286,8679,1,
8679,0,8680,2,
8277,8680,8681,1,
8286,8681,8682,1,
8322,8682,8683,0,
8286,8683,8684,1,
54,0,8685,2,
8684,8685,8686,0,
8686,0,8687,2,
8678,8687,8688,0,
8675,0,8689,2,
8684,8689,8690,0,
8690,0,8691,2,
8688,8691,8692,0,
8692,0,8693,2,
8334,8693,8694,0,
8694,0,8695,2,
8311,7953,8696,1,
8696,0,8697,2,
7953,8697,8698,1,
8322,8698,8699,0,
7953,8699,8700,1,
8700,0,8701,2,
8695,8701,8702,0,
8702,0,8703,2,
701,8328,8704,1,
8704,0,8705,2,
8664,8705,8706,1,
8328,8706,8707,1,
8703,8707,8708,0,
8328,8708,8709,1,
320,8684,8710,1,
8710,0,8711,2,
8675,8711,8712,1,
8684,8712,8713,1,
8703,8713,8714,0,
8684,8714,8715,1,
8703,32,8716,0,
33,0,8717,2,
8716,8717,8718,0,
8718,0,8719,2,
330,8719,8720,0,
32,0,8721,2,
8716,8721,8722,0,
8722,0,8723,2,
8720,8723,8724,0,
8724,34,8725,1,
8724,34,8726,0,
8725,8726,8727,1,
8335,736,8728,1,
8335,8728,8729,1,
8703,8729,8730,0,
8335,8730,8731,1,
34,0,8732,2,
8731,8732,8733,0,
8733,0,8734,2,
8727,8734,8735,0,
8724,0,8736,2,
8731,8736,8737,0,
8737,0,8738,2,
8735,8738,8739,0,
8739,35,8740,1,
8739,35,8741,0,
8740,8741,8742,1,
81,8350,8743,1,
8743,0,8744,2,
8343,8744,8745,1,
8350,8745,8746,1,
8703,8746,8747,0,
8350,8747,8748,1,
35,0,8749,2,
8748,8749,8750,0,
8750,0,8751,2,
8742,8751,8752,0,
8739,0,8753,2,
8748,8753,8754,0,
8754,0,8755,2,
8752,8755,8756,0,
8756,36,8757,1,
8756,36,8758,0,
8757,8758,8759,1,
381,8367,8760,1,
8760,0,8761,2,
8358,8761,8762,1,
8367,8762,8763,1,
8703,8763,8764,0,
8367,8764,8765,1,
36,0,8766,2,
8765,8766,8767,0,
8767,0,8768,2,
8759,8768,8769,0,
8756,0,8770,2,
8765,8770,8771,0,
8771,0,8772,2,
8769,8772,8773,0,
8773,37,8774,1,
8773,37,8775,0,
8774,8775,8776,1,
399,8384,8777,1,
8777,0,8778,2,
8375,8778,8779,1,
8384,8779,8780,1,
8703,8780,8781,0,
8384,8781,8782,1,
37,0,8783,2,
8782,8783,8784,0,
8784,0,8785,2,
8776,8785,8786,0,
8773,0,8787,2,
8782,8787,8788,0,
8788,0,8789,2,
8786,8789,8790,0,
8790,38,8791,1,
8790,38,8792,0,
8791,8792,8793,1,
417,8401,8794,1,
8794,0,8795,2,
8392,8795,8796,1,
8401,8796,8797,1,
8703,8797,8798,0,
8401,8798,8799,1,
38,0,8800,2,
8799,8800,8801,0,
8801,0,8802,2,
8793,8802,8803,0,
8790,0,8804,2,
8799,8804,8805,0,
8805,0,8806,2,
8803,8806,8807,0,
8807,39,8808,1,
8807,39,8809,0,
8808,8809,8810,1,
127,8418,8811,1,
8811,0,8812,2,
8409,8812,8813,1,
8418,8813,8814,1,
8703,8814,8815,0,
8418,8815,8816,1,
39,0,8817,2,
8816,8817,8818,0,
8818,0,8819,2,
8810,8819,8820,0,
8807,0,8821,2,
8816,8821,8822,0,
8822,0,8823,2,
8820,8823,8824,0,
8824,40,8825,1,
8824,40,8826,0,
8825,8826,8827,1,
452,8435,8828,1,
8828,0,8829,2,
8426,8829,8830,1,
8435,8830,8831,1,
8703,8831,8832,0,
8435,8832,8833,1,
40,0,8834,2,
8833,8834,8835,0,
8835,0,8836,2,
8827,8836,8837,0,
8824,0,8838,2,
8833,8838,8839,0,
8839,0,8840,2,
8837,8840,8841,0,
8841,41,8842,1,
8841,41,8843,0,
8842,8843,8844,1,
470,8452,8845,1,
8845,0,8846,2,
8443,8846,8847,1,
8452,8847,8848,1,
8703,8848,8849,0,
8452,8849,8850,1,
41,0,8851,2,
8850,8851,8852,0,
8852,0,8853,2,
8844,8853,8854,0,
8841,0,8855,2,
8850,8855,8856,0,
8856,0,8857,2,
8854,8857,8858,0,
8858,42,8859,1,
8858,42,8860,0,
8859,8860,8861,1,
488,8469,8862,1,
8862,0,8863,2,
8460,8863,8864,1,
8469,8864,8865,1,
8703,8865,8866,0,
8469,8866,8867,1,
42,0,8868,2,
8867,8868,8869,0,
8869,0,8870,2,
8861,8870,8871,0,
8858,0,8872,2,
8867,8872,8873,0,
8873,0,8874,2,
8871,8874,8875,0,
8875,43,8876,1,
8875,43,8877,0,
8876,8877,8878,1,
173,8486,8879,1,
8879,0,8880,2,
8477,8880,8881,1,
8486,8881,8882,1,
8703,8882,8883,0,
8486,8883,8884,1,
43,0,8885,2,
8884,8885,8886,0,
8886,0,8887,2,
8878,8887,8888,0,
8875,0,8889,2,
8884,8889,8890,0,
8890,0,8891,2,
8888,8891,8892,0,
8892,44,8893,1,
8892,44,8894,0,
8893,8894,8895,1,
523,8503,8896,1,
8896,0,8897,2,
8494,8897,8898,1,
8503,8898,8899,1,
8703,8899,8900,0,
8503,8900,8901,1,
44,0,8902,2,
8901,8902,8903,0,
8903,0,8904,2,
8895,8904,8905,0,
8892,0,8906,2,
8901,8906,8907,0,
8907,0,8908,2,
8905,8908,8909,0,
8909,45,8910,1,
8909,45,8911,0,
8910,8911,8912,1,
541,8520,8913,1,
8913,0,8914,2,
8511,8914,8915,1,
8520,8915,8916,1,
8703,8916,8917,0,
8520,8917,8918,1,
45,0,8919,2,
8918,8919,8920,0,
8920,0,8921,2,
8912,8921,8922,0,
8909,0,8923,2,
8918,8923,8924,0,
8924,0,8925,2,
8922,8925,8926,0,
8926,46,8927,1,
8926,46,8928,0,
8927,8928,8929,1,
559,8537,8930,1,
8930,0,8931,2,
8528,8931,8932,1,
8537,8932,8933,1,
8703,8933,8934,0,
8537,8934,8935,1,
46,0,8936,2,
8935,8936,8937,0,
8937,0,8938,2,
8929,8938,8939,0,
8926,0,8940,2,
8935,8940,8941,0,
8941,0,8942,2,
8939,8942,8943,0,
8943,47,8944,1,
8943,47,8945,0,
8944,8945,8946,1,
219,8554,8947,1,
8947,0,8948,2,
8545,8948,8949,1,
8554,8949,8950,1,
8703,8950,8951,0,
8554,8951,8952,1,
47,0,8953,2,
8952,8953,8954,0,
8954,0,8955,2,
8946,8955,8956,0,
8943,0,8957,2,
8952,8957,8958,0,
8958,0,8959,2,
8956,8959,8960,0,
8960,48,8961,1,
8960,48,8962,0,
8961,8962,8963,1,
594,8571,8964,1,
8964,0,8965,2,
8562,8965,8966,1,
8571,8966,8967,1,
8703,8967,8968,0,
8571,8968,8969,1,
48,0,8970,2,
8969,8970,8971,0,
8971,0,8972,2,
8963,8972,8973,0,
8960,0,8974,2,
8969,8974,8975,0,
8975,0,8976,2,
8973,8976,8977,0,
8977,49,8978,1,
8977,49,8979,0,
8978,8979,8980,1,
612,8588,8981,1,
8981,0,8982,2,
8579,8982,8983,1,
8588,8983,8984,1,
8703,8984,8985,0,
8588,8985,8986,1,
49,0,8987,2,
8986,8987,8988,0,
8988,0,8989,2,
8980,8989,8990,0,
8977,0,8991,2,
8986,8991,8992,0,
8992,0,8993,2,
8990,8993,8994,0,
8994,50,8995,1,
8994,50,8996,0,
8995,8996,8997,1,
630,8605,8998,1,
8998,0,8999,2,
8596,8999,9000,1,
8605,9000,9001,1,
8703,9001,9002,0,
8605,9002,9003,1,
50,0,9004,2,
9003,9004,9005,0,
9005,0,9006,2,
8997,9006,9007,0,
8994,0,9008,2,
9003,9008,9009,0,
9009,0,9010,2,
9007,9010,9011,0,
9011,51,9012,1,
9011,51,9013,0,
9012,9013,9014,1,
265,8622,9015,1,
9015,0,9016,2,
8613,9016,9017,1,
8622,9017,9018,1,
8703,9018,9019,0,
8622,9019,9020,1,
51,0,9021,2,
9020,9021,9022,0,
9022,0,9023,2,
9014,9023,9024,0,
9011,0,9025,2,
9020,9025,9026,0,
9026,0,9027,2,
9024,9027,9028,0,
9028,52,9029,1,
9028,52,9030,0,
9029,9030,9031,1,
665,8639,9032,1,
9032,0,9033,2,
8630,9033,9034,1,
8639,9034,9035,1,
8703,9035,9036,0,
8639,9036,9037,1,
52,0,9038,2,
9037,9038,9039,0,
9039,0,9040,2,
9031,9040,9041,0,
9028,0,9042,2,
9037,9042,9043,0,
9043,0,9044,2,
9041,9044,9045,0,
9045,53,9046,1,
9045,53,9047,0,
9046,9047,9048,1,
683,8656,9049,1,
9049,0,9050,2,
8647,9050,9051,1,
8656,9051,9052,1,
8703,9052,9053,0,
8656,9053,9054,1,
53,0,9055,2,
9054,9055,9056,0,
9056,0,9057,2,
9048,9057,9058,0,
9045,0,9059,2,
9054,9059,9060,0,
9060,0,9061,2,
9058,9061,9062,0,
9062,54,9063,1,
9062,54,9064,0,
9063,9064,9065,1,
54,0,9066,2,
8709,9066,9067,0,
9067,0,9068,2,
9065,9068,9069,0,
9062,0,9070,2,
8709,9070,9071,0,
9071,0,9072,2,
9069,9072,9073,0,
9073,0,9074,2,
8715,9074,9075,0,
9075,0,9076,2,
8692,8334,9077,1,
9077,0,9078,2,
8334,9078,9079,1,
8703,9079,9080,0,
8334,9080,9081,1,
9081,0,9082,2,
9076,9082,9083,0,
9083,0,9084,2,
320,8709,9085,1,
9085,0,9086,2,
9062,9086,9087,1,
8709,9087,9088,1,
9084,9088,9089,0,
8709,9089,9090,1,
9084,32,9091,0,
33,0,9092,2,
9091,9092,9093,0,
9093,0,9094,2,
330,9094,9095,0,
32,0,9096,2,
9091,9096,9097,0,
9097,0,9098,2,
9095,9098,9099,0,
9099,34,9100,1,
9099,34,9101,0,
9100,9101,9102,1,
8716,736,9103,1,
8716,9103,9104,1,
9084,9104,9105,0,
8716,9105,9106,1,
34,0,9107,2,
9106,9107,9108,0,
9108,0,9109,2,
9102,9109,9110,0,
9099,0,9111,2,
9106,9111,9112,0,
9112,0,9113,2,
9110,9113,9114,0,
9114,35,9115,1,
9114,35,9116,0,
9115,9116,9117,1,
81,8731,9118,1,
9118,0,9119,2,
8724,9119,9120,1,
8731,9120,9121,1,
9084,9121,9122,0,
8731,9122,9123,1,
35,0,9124,2,
9123,9124,9125,0,
9125,0,9126,2,
9117,9126,9127,0,
9114,0,9128,2,
9123,9128,9129,0,
9129,0,9130,2,
9127,9130,9131,0,
9131,36,9132,1,
9131,36,9133,0,
9132,9133,9134,1,
381,8748,9135,1,
9135,0,9136,2,
8739,9136,9137,1,
8748,9137,9138,1,
9084,9138,9139,0,
8748,9139,9140,1,
36,0,9141,2,
9140,9141,9142,0,
9142,0,9143,2,
9134,9143,9144,0,
9131,0,9145,2,
9140,9145,9146,0,
9146,0,9147,2,
9144,9147,9148,0,
9148,37,9149,1,
9148,37,9150,0,
9149,9150,9151,1,
399,8765,9152,1,
9152,0,9153,2,
8756,9153,9154,1,
8765,9154,9155,1,
9084,9155,9156,0,
8765,9156,9157,1,
37,0,9158,2,
9157,9158,9159,0,
9159,0,9160,2,
9151,9160,9161,0,
9148,0,9162,2,
9157,9162,9163,0,
9163,0,9164,2,
9161,9164,9165,0,
9165,38,9166,1,
9165,38,9167,0,
9166,9167,9168,1,
417,8782,9169,1,
9169,0,9170,2,
8773,9170,9171,1,
8782,9171,9172,1,
9084,9172,9173,0,
8782,9173,9174,1,
38,0,9175,2,
9174,9175,9176,0,
9176,0,9177,2,
9168,9177,9178,0,
9165,0,9179,2,
9174,9179,9180,0,
9180,0,9181,2,
9178,9181,9182,0,
9182,39,9183,1,
9182,39,9184,0,
9183,9184,9185,1,
127,8799,9186,1,
9186,0,9187,2,
8790,9187,9188,1,
8799,9188,9189,1,
9084,9189,9190,0,
8799,9190,9191,1,
39,0,9192,2,
9191,9192,9193,0,
9193,0,9194,2,
9185,9194,9195,0,
9182,0,9196,2,
9191,9196,9197,0,
9197,0,9198,2,
9195,9198,9199,0,
9199,40,9200,1,
9199,40,9201,0,
9200,9201,9202,1,
452,8816,9203,1,
9203,0,9204,2,
8807,9204,9205,1,
8816,9205,9206,1,
9084,9206,9207,0,
8816,9207,9208,1,
40,0,9209,2,
9208,9209,9210,0,
9210,0,9211,2,
9202,9211,9212,0,
9199,0,9213,2,
9208,9213,9214,0,
9214,0,9215,2,
9212,9215,9216,0,
9216,41,9217,1,
9216,41,9218,0,
9217,9218,9219,1,
470,8833,9220,1,
9220,0,9221,2,
8824,9221,9222,1,
8833,9222,9223,1,
9084,9223,9224,0,
8833,9224,9225,1,
41,0,9226,2,
9225,9226,9227,0,
9227,0,9228,2,
9219,9228,9229,0,
9216,0,9230,2,
9225,9230,9231,0,
9231,0,9232,2,
9229,9232,9233,0,
9233,42,9234,1,
9233,42,9235,0,
9234,9235,9236,1,
488,8850,9237,1,
9237,0,9238,2,
8841,9238,9239,1,
8850,9239,9240,1,
9084,9240,9241,0,
8850,9241,9242,1,
42,0,9243,2,
9242,9243,9244,0,
9244,0,9245,2,
9236,9245,9246,0,
9233,0,9247,2,
9242,9247,9248,0,
9248,0,9249,2,
9246,9249,9250,0,
9250,43,9251,1,
9250,43,9252,0,
9251,9252,9253,1,
173,8867,9254,1,
9254,0,9255,2,
8858,9255,9256,1,
8867,9256,9257,1,
9084,9257,9258,0,
8867,9258,9259,1,
43,0,9260,2,
9259,9260,9261,0,
9261,0,9262,2,
9253,9262,9263,0,
9250,0,9264,2,
9259,9264,9265,0,
9265,0,9266,2,
9263,9266,9267,0,
9267,44,9268,1,
9267,44,9269,0,
9268,9269,9270,1,
523,8884,9271,1,
9271,0,9272,2,
8875,9272,9273,1,
8884,9273,9274,1,
9084,9274,9275,0,
8884,9275,9276,1,
44,0,9277,2,
9276,9277,9278,0,
9278,0,9279,2,
9270,9279,9280,0,
9267,0,9281,2,
9276,9281,9282,0,
9282,0,9283,2,
9280,9283,9284,0,
9284,45,9285,1,
9284,45,9286,0,
9285,9286,9287,1,
541,8901,9288,1,
9288,0,9289,2,
8892,9289,9290,1,
8901,9290,9291,1,
9084,9291,9292,0,
8901,9292,9293,1,
45,0,9294,2,
9293,9294,9295,0,
9295,0,9296,2,
9287,9296,9297,0,
9284,0,9298,2,
9293,9298,9299,0,
9299,0,9300,2,
9297,9300,9301,0,
9301,46,9302,1,
9301,46,9303,0,
9302,9303,9304,1,
559,8918,9305,1,
9305,0,9306,2,
8909,9306,9307,1,
8918,9307,9308,1,
9084,9308,9309,0,
8918,9309,9310,1,
46,0,9311,2,
9310,9311,9312,0,
9312,0,9313,2,
9304,9313,9314,0,
9301,0,9315,2,
9310,9315,9316,0,
9316,0,9317,2,
9314,9317,9318,0,
9318,47,9319,1,
9318,47,9320,0,
9319,9320,9321,1,
219,8935,9322,1,
9322,0,9323,2,
8926,9323,9324,1,
8935,9324,9325,1,
9084,9325,9326,0,
8935,9326,9327,1,
47,0,9328,2,
9327,9328,9329,0,
9329,0,9330,2,
9321,9330,9331,0,
9318,0,9332,2,
9327,9332,9333,0,
9333,0,9334,2,
9331,9334,9335,0,
9335,48,9336,1,
9335,48,9337,0,
9336,9337,9338,1,
594,8952,9339,1,
9339,0,9340,2,
8943,9340,9341,1,
8952,9341,9342,1,
9084,9342,9343,0,
8952,9343,9344,1,
48,0,9345,2,
9344,9345,9346,0,
9346,0,9347,2,
9338,9347,9348,0,
9335,0,9349,2,
9344,9349,9350,0,
9350,0,9351,2,
9348,9351,9352,0,
9352,49,9353,1,
9352,49,9354,0,
9353,9354,9355,1,
612,8969,9356,1,
9356,0,9357,2,
8960,9357,9358,1,
8969,9358,9359,1,
9084,9359,9360,0,
8969,9360,9361,1,
49,0,9362,2,
9361,9362,9363,0,
9363,0,9364,2,
9355,9364,9365,0,
9352,0,9366,2,
9361,9366,9367,0,
9367,0,9368,2,
9365,9368,9369,0,
9369,50,9370,1,
9369,50,9371,0,
9370,9371,9372,1,
630,8986,9373,1,
9373,0,9374,2,
8977,9374,9375,1,
8986,9375,9376,1,
9084,9376,9377,0,
8986,9377,9378,1,
50,0,9379,2,
9378,9379,9380,0,
9380,0,9381,2,
9372,9381,9382,0,
9369,0,9383,2,
9378,9383,9384,0,
9384,0,9385,2,
9382,9385,9386,0,
9386,51,9387,1,
9386,51,9388,0,
9387,9388,9389,1,
265,9003,9390,1,
9390,0,9391,2,
8994,9391,9392,1,
9003,9392,9393,1,
9084,9393,9394,0,
9003,9394,9395,1,
51,0,9396,2,
9395,9396,9397,0,
9397,0,9398,2,
9389,9398,9399,0,
9386,0,9400,2,
9395,9400,9401,0,
9401,0,9402,2,
9399,9402,9403,0,
9403,52,9404,1,
9403,52,9405,0,
9404,9405,9406,1,
665,9020,9407,1,
9407,0,9408,2,
9011,9408,9409,1,
9020,9409,9410,1,
9084,9410,9411,0,
9020,9411,9412,1,
52,0,9413,2,
9412,9413,9414,0,
9414,0,9415,2,
9406,9415,9416,0,
9403,0,9417,2,
9412,9417,9418,0,
9418,0,9419,2,
9416,9419,9420,0,
9420,53,9421,1,
9420,53,9422,0,
9421,9422,9423,1,
683,9037,9424,1,
9424,0,9425,2,
9028,9425,9426,1,
9037,9426,9427,1,
9084,9427,9428,0,
9037,9428,9429,1,
53,0,9430,2,
9429,9430,9431,0,
9431,0,9432,2,
9423,9432,9433,0,
9420,0,9434,2,
9429,9434,9435,0,
9435,0,9436,2,
9433,9436,9437,0,
9437,54,9438,1,
9437,54,9439,0,
9438,9439,9440,1,
701,9054,9441,1,
9441,0,9442,2,
9045,9442,9443,1,
9054,9443,9444,1,
9084,9444,9445,0,
9054,9445,9446,1,
54,0,9447,2,
9446,9447,9448,0,
9448,0,9449,2,
9440,9449,9450,0,
9437,0,9451,2,
9446,9451,9452,0,
9452,0,9453,2,
9450,9453,9454,0,
9454,0,9455,2,
9090,9455,9456,0,
9456,0,9457,2,
9073,8715,9458,1,
9458,0,9459,2,
8715,9459,9460,1,
9084,9460,9461,0,
8715,9461,9462,1,
9462,0,9463,2,
9457,9463,9464,0,
9464,0,9465,2,
9465,32,9466,0,
9466,736,9467,1,
9466,9467,9468,1,
320,9446,9469,1,
9469,0,9470,2,
9437,9470,9471,1,
9446,9471,9472,1,
9465,9472,9473,0,
9446,9473,9474,1,
33,0,9475,2,
9466,9475,9476,0,
9476,0,9477,2,
330,9477,9478,0,
32,0,9479,2,
9466,9479,9480,0,
9480,0,9481,2,
9478,9481,9482,0,
9482,34,9483,1,
9482,34,9484,0,
9483,9484,9485,1,
9091,736,9486,1,
9091,9486,9487,1,
9465,9487,9488,0,
9091,9488,9489,1,
34,0,9490,2,
9489,9490,9491,0,
9491,0,9492,2,
9485,9492,9493,0,
9482,0,9494,2,
9489,9494,9495,0,
9495,0,9496,2,
9493,9496,9497,0,
9497,35,9498,1,
9497,35,9499,0,
9498,9499,9500,1,
81,9106,9501,1,
9501,0,9502,2,
9099,9502,9503,1,
9106,9503,9504,1,
9465,9504,9505,0,
9106,9505,9506,1,
35,0,9507,2,
9506,9507,9508,0,
9508,0,9509,2,
9500,9509,9510,0,
9497,0,9511,2,
9506,9511,9512,0,
9512,0,9513,2,
9510,9513,9514,0,
9514,36,9515,1,
9514,36,9516,0,
9515,9516,9517,1,
381,9123,9518,1,
9518,0,9519,2,
9114,9519,9520,1,
9123,9520,9521,1,
9465,9521,9522,0,
9123,9522,9523,1,
36,0,9524,2,
9523,9524,9525,0,
9525,0,9526,2,
9517,9526,9527,0,
9514,0,9528,2,
9523,9528,9529,0,
9529,0,9530,2,
9527,9530,9531,0,
9531,37,9532,1,
9531,37,9533,0,
9532,9533,9534,1,
399,9140,9535,1,
9535,0,9536,2,
9131,9536,9537,1,
9140,9537,9538,1,
9465,9538,9539,0,
9140,9539,9540,1,
37,0,9541,2,
9540,9541,9542,0,
9542,0,9543,2,
9534,9543,9544,0,
9531,0,9545,2,
9540,9545,9546,0,
9546,0,9547,2,
9544,9547,9548,0,
9548,38,9549,1,
9548,38,9550,0,
9549,9550,9551,1,
417,9157,9552,1,
9552,0,9553,2,
9148,9553,9554,1,
9157,9554,9555,1,
9465,9555,9556,0,
9157,9556,9557,1,
38,0,9558,2,
9557,9558,9559,0,
9559,0,9560,2,
9551,9560,9561,0,
9548,0,9562,2,
9557,9562,9563,0,
9563,0,9564,2,
9561,9564,9565,0,
9565,39,9566,1,
9565,39,9567,0,
9566,9567,9568,1,
127,9174,9569,1,
9569,0,9570,2,
9165,9570,9571,1,
9174,9571,9572,1,
9465,9572,9573,0,
9174,9573,9574,1,
39,0,9575,2,
9574,9575,9576,0,
9576,0,9577,2,
9568,9577,9578,0,
9565,0,9579,2,
9574,9579,9580,0,
9580,0,9581,2,
9578,9581,9582,0,
9582,40,9583,1,
9582,40,9584,0,
9583,9584,9585,1,
452,9191,9586,1,
9586,0,9587,2,
9182,9587,9588,1,
9191,9588,9589,1,
9465,9589,9590,0,
9191,9590,9591,1,
40,0,9592,2,
9591,9592,9593,0,
9593,0,9594,2,
9585,9594,9595,0,
9582,0,9596,2,
9591,9596,9597,0,
9597,0,9598,2,
9595,9598,9599,0,
9599,41,9600,1,
9599,41,9601,0,
9600,9601,9602,1,
470,9208,9603,1,
9603,0,9604,2,
9199,9604,9605,1,
9208,9605,9606,1,
9465,9606,9607,0,
9208,9607,9608,1,
41,0,9609,2,
9608,9609,9610,0,
9610,0,9611,2,
9602,9611,9612,0,
9599,0,9613,2,
9608,9613,9614,0,
9614,0,9615,2,
9612,9615,9616,0,
9616,42,9617,1,
9616,42,9618,0,
9617,9618,9619,1,
488,9225,9620,1,
9620,0,9621,2,
9216,9621,9622,1,
9225,9622,9623,1,
9465,9623,9624,0,
9225,9624,9625,1,
42,0,9626,2,
9625,9626,9627,0,
9627,0,9628,2,
9619,9628,9629,0,
9616,0,9630,2,
9625,9630,9631,0,
9631,0,9632,2,
9629,9632,9633,0,
9633,43,9634,1,
9633,43,9635,0,
9634,9635,9636,1,
173,9242,9637,1,
9637,0,9638,2,
9233,9638,9639,1,
9242,9639,9640,1,
9465,9640,9641,0,
9242,9641,9642,1,
43,0,9643,2,
9642,9643,9644,0,
9644,0,9645,2,
9636,9645,9646,0,
9633,0,9647,2,
9642,9647,9648,0,
9648,0,9649,2,
9646,9649,9650,0,
9650,44,9651,1,
9650,44,9652,0,
9651,9652,9653,1,
523,9259,9654,1,
9654,0,9655,2,
9250,9655,9656,1,
9259,9656,9657,1,
9465,9657,9658,0,
9259,9658,9659,1,
44,0,9660,2,
9659,9660,9661,0,
9661,0,9662,2,
9653,9662,9663,0,
9650,0,9664,2,
9659,9664,9665,0,
9665,0,9666,2,
9663,9666,9667,0,
9667,45,9668,1,
9667,45,9669,0,
9668,9669,9670,1,
541,9276,9671,1,
9671,0,9672,2,
9267,9672,9673,1,
9276,9673,9674,1,
9465,9674,9675,0,
9276,9675,9676,1,
45,0,9677,2,
9676,9677,9678,0,
9678,0,9679,2,
9670,9679,9680,0,
9667,0,9681,2,
9676,9681,9682,0,
9682,0,9683,2,
9680,9683,9684,0,
9684,46,9685,1,
9684,46,9686,0,
9685,9686,9687,1,
559,9293,9688,1,
9688,0,9689,2,
9284,9689,9690,1,
9293,9690,9691,1,
9465,9691,9692,0,
9293,9692,9693,1,
46,0,9694,2,
9693,9694,9695,0,
9695,0,9696,2,
9687,9696,9697,0,
9684,0,9698,2,
9693,9698,9699,0,
9699,0,9700,2,
9697,9700,9701,0,
9701,47,9702,1,
9701,47,9703,0,
9702,9703,9704,1,
219,9310,9705,1,
9705,0,9706,2,
9301,9706,9707,1,
9310,9707,9708,1,
9465,9708,9709,0,
9310,9709,9710,1,
47,0,9711,2,
9710,9711,9712,0,
9712,0,9713,2,
9704,9713,9714,0,
9701,0,9715,2,
9710,9715,9716,0,
9716,0,9717,2,
9714,9717,9718,0,
9718,48,9719,1,
9718,48,9720,0,
9719,9720,9721,1,
594,9327,9722,1,
9722,0,9723,2,
9318,9723,9724,1,
9327,9724,9725,1,
9465,9725,9726,0,
9327,9726,9727,1,
48,0,9728,2,
9727,9728,9729,0,
9729,0,9730,2,
9721,9730,9731,0,
9718,0,9732,2,
9727,9732,9733,0,
9733,0,9734,2,
9731,9734,9735,0,
9735,49,9736,1,
9735,49,9737,0,
9736,9737,9738,1,
612,9344,9739,1,
9739,0,9740,2,
9335,9740,9741,1,
9344,9741,9742,1,
9465,9742,9743,0,
9344,9743,9744,1,
49,0,9745,2,
9744,9745,9746,0,
9746,0,9747,2,
9738,9747,9748,0,
9735,0,9749,2,
9744,9749,9750,0,
9750,0,9751,2,
9748,9751,9752,0,
9752,50,9753,1,
9752,50,9754,0,
9753,9754,9755,1,
630,9361,9756,1,
9756,0,9757,2,
9352,9757,9758,1,
9361,9758,9759,1,
9465,9759,9760,0,
9361,9760,9761,1,
50,0,9762,2,
9761,9762,9763,0,
9763,0,9764,2,
9755,9764,9765,0,
9752,0,9766,2,
9761,9766,9767,0,
9767,0,9768,2,
9765,9768,9769,0,
9769,51,9770,1,
9769,51,9771,0,
9770,9771,9772,1,
265,9378,9773,1,
9773,0,9774,2,
9369,9774,9775,1,
9378,9775,9776,1,
9465,9776,9777,0,
9378,9777,9778,1,
51,0,9779,2,
9778,9779,9780,0,
9780,0,9781,2,
9772,9781,9782,0,
9769,0,9783,2,
9778,9783,9784,0,
9784,0,9785,2,
9782,9785,9786,0,
9786,52,9787,1,
9786,52,9788,0,
9787,9788,9789,1,
665,9395,9790,1,
9790,0,9791,2,
9386,9791,9792,1,
9395,9792,9793,1,
9465,9793,9794,0,
9395,9794,9795,1,
52,0,9796,2,
9795,9796,9797,0,
9797,0,9798,2,
9789,9798,9799,0,
9786,0,9800,2,
9795,9800,9801,0,
9801,0,9802,2,
9799,9802,9803,0,
9803,53,9804,1,
9803,53,9805,0,
9804,9805,9806,1,
683,9412,9807,1,
9807,0,9808,2,
9403,9808,9809,1,
9412,9809,9810,1,
9465,9810,9811,0,
9412,9811,9812,1,
53,0,9813,2,
9812,9813,9814,0,
9814,0,9815,2,
9806,9815,9816,0,
9803,0,9817,2,
9812,9817,9818,0,
9818,0,9819,2,
9816,9819,9820,0,
9820,54,9821,1,
9820,54,9822,0,
9821,9822,9823,1,
701,9429,9824,1,
9824,0,9825,2,
9420,9825,9826,1,
9429,9826,9827,1,
9465,9827,9828,0,
9429,9828,9829,1,
54,0,9830,2,
9829,9830,9831,0,
9831,0,9832,2,
9823,9832,9833,0,
9820,0,9834,2,
9829,9834,9835,0,
9835,0,9836,2,
9833,9836,9837,0,
9837,0,9838,2,
9474,9838,9839,0,
9839,0,9840,2,
9454,9090,9841,1,
9841,0,9842,2,
9090,9842,9843,1,
9465,9843,9844,0,
9090,9844,9845,1,
9845,0,9846,2,
9840,9846,9847,0,
9847,0,9848,2,
9848,9468,9849,0,
9466,9849,9850,1,
81,9489,9851,1,
9851,0,9852,2,
9482,9852,9853,1,
9489,9853,9854,1,
9848,9854,9855,0,
9489,9855,9856,1,
381,9506,9857,1,
9857,0,9858,2,
9497,9858,9859,1,
9506,9859,9860,1,
9848,9860,9861,0,
9506,9861,9862,1,
399,9523,9863,1,
9863,0,9864,2,
9514,9864,9865,1,
9523,9865,9866,1,
9848,9866,9867,0,
9523,9867,9868,1,
417,9540,9869,1,
9869,0,9870,2,
9531,9870,9871,1,
9540,9871,9872,1,
9848,9872,9873,0,
9540,9873,9874,1,
127,9557,9875,1,
9875,0,9876,2,
9548,9876,9877,1,
9557,9877,9878,1,
9848,9878,9879,0,
9557,9879,9880,1,
452,9574,9881,1,
9881,0,9882,2,
9565,9882,9883,1,
9574,9883,9884,1,
9848,9884,9885,0,
9574,9885,9886,1,
470,9591,9887,1,
9887,0,9888,2,
9582,9888,9889,1,
9591,9889,9890,1,
9848,9890,9891,0,
9591,9891,9892,1,
488,9608,9893,1,
9893,0,9894,2,
9599,9894,9895,1,
9608,9895,9896,1,
9848,9896,9897,0,
9608,9897,9898,1,
173,9625,9899,1,
9899,0,9900,2,
9616,9900,9901,1,
9625,9901,9902,1,
9848,9902,9903,0,
9625,9903,9904,1,
523,9642,9905,1,
9905,0,9906,2,
9633,9906,9907,1,
9642,9907,9908,1,
9848,9908,9909,0,
9642,9909,9910,1,
541,9659,9911,1,
9911,0,9912,2,
9650,9912,9913,1,
9659,9913,9914,1,
9848,9914,9915,0,
9659,9915,9916,1,
559,9676,9917,1,
9917,0,9918,2,
9667,9918,9919,1,
9676,9919,9920,1,
9848,9920,9921,0,
9676,9921,9922,1,
219,9693,9923,1,
9923,0,9924,2,
9684,9924,9925,1,
9693,9925,9926,1,
9848,9926,9927,0,
9693,9927,9928,1,
594,9710,9929,1,
9929,0,9930,2,
9701,9930,9931,1,
9710,9931,9932,1,
9848,9932,9933,0,
9710,9933,9934,1,
612,9727,9935,1,
9935,0,9936,2,
9718,9936,9937,1,
9727,9937,9938,1,
9848,9938,9939,0,
9727,9939,9940,1,
630,9744,9941,1,
9941,0,9942,2,
9735,9942,9943,1,
9744,9943,9944,1,
9848,9944,9945,0,
9744,9945,9946,1,
265,9761,9947,1,
9947,0,9948,2,
9752,9948,9949,1,
9761,9949,9950,1,
9848,9950,9951,0,
9761,9951,9952,1,
665,9778,9953,1,
9953,0,9954,2,
9769,9954,9955,1,
9778,9955,9956,1,
9848,9956,9957,0,
9778,9957,9958,1,
683,9795,9959,1,
9959,0,9960,2,
9786,9960,9961,1,
9795,9961,9962,1,
9848,9962,9963,0,
9795,9963,9964,1,
701,9812,9965,1,
9965,0,9966,2,
9803,9966,9967,1,
9812,9967,9968,1,
9848,9968,9969,0,
9812,9969,9970,1,
320,9829,9971,1,
9971,0,9972,2,
9820,9972,9973,1,
9829,9973,9974,1,
9848,9974,9975,0,
9829,9975,9976,1,
9837,9474,9977,1,
9977,0,9978,2,
9474,9978,9979,1,
9848,9979,9980,0,
9474,9980,9981,1,
701,21,9982,0,
9982,0,9983,2,
20,0,9984,2,
9983,9984,9985,0,
683,0,9986,2,
9985,9986,9987,0,
9987,0,9988,2,
21,0,9989,2,
53,9989,9990,0,
9990,0,9991,2,
9988,9991,9992,0,
17,0,9993,2,
49,9993,9994,0,
9994,0,9995,2,
630,17,9996,0,
9996,0,9997,2,
16,0,9998,2,
9997,9998,9999,0,
612,0,10000,2,
9999,10000,10001,0,
10001,0,10002,2,
9995,10002,10003,0,
10003,0,10004,2,
665,19,10005,0,
10005,0,10006,2,
269,10006,10007,0,
10007,0,10008,2,
10008,0,10009,2,
10004,10009,10010,0,
10010,0,10011,2,
19,0,10012,2,
51,10012,10013,0,
10013,0,10014,2,
10011,10014,10015,0,
18,0,10016,2,
10006,10016,10017,0,
265,0,10018,2,
10017,10018,10019,0,
10019,0,10020,2,
10015,10020,10021,0,
10021,0,10022,2,
291,9983,10023,0,
10023,0,10024,2,
10024,0,10025,2,
10022,10025,10026,0,
10026,0,10027,2,
9992,10027,10028,0,
10028,0,10029,2,
22,320,10030,0,
10030,0,10031,2,
10029,10031,10032,0,
10032,0,10033,2,
22,0,10034,2,
54,10034,10035,0,
10035,0,10036,2,
10033,10036,10037,0,
15,0,10038,2,
47,10038,10039,0,
10039,0,10040,2,
13,0,10041,2,
45,10041,10042,0,
10042,0,10043,2,
559,13,10044,0,
10044,0,10045,2,
12,0,10046,2,
10045,10046,10047,0,
541,0,10048,2,
10047,10048,10049,0,
10049,0,10050,2,
10043,10050,10051,0,
10051,0,10052,2,
594,15,10053,0,
10053,0,10054,2,
223,10054,10055,0,
10055,0,10056,2,
10056,0,10057,2,
10052,10057,10058,0,
10058,0,10059,2,
10040,10059,10060,0,
14,0,10061,2,
10054,10061,10062,0,
219,0,10063,2,
10062,10063,10064,0,
10064,0,10065,2,
9,0,10066,2,
41,10066,10067,0,
10067,0,10068,2,
488,9,10069,0,
10069,0,10070,2,
8,0,10071,2,
10070,10071,10072,0,
470,0,10073,2,
10072,10073,10074,0,
10074,0,10075,2,
10068,10075,10076,0,
10076,0,10077,2,
523,11,10078,0,
10078,0,10079,2,
177,10079,10080,0,
10080,0,10081,2,
10081,0,10082,2,
10077,10082,10083,0,
10083,0,10084,2,
11,0,10085,2,
43,10085,10086,0,
10086,0,10087,2,
10084,10087,10088,0,
10,0,10089,2,
10079,10089,10090,0,
173,0,10091,2,
10090,10091,10092,0,
10092,0,10093,2,
10088,10093,10094,0,
10094,0,10095,2,
199,10045,10096,0,
10056,0,10097,2,
10096,10097,10098,0,
10098,0,10099,2,
10099,0,10100,2,
10095,10100,10101,0,
10101,0,10102,2,
10065,10102,10103,0,
10099,10081,10104,1,
10099,10081,10105,0,
10104,10105,10106,1,
10106,0,10107,2,
153,10070,10108,0,
5,0,10109,2,
37,10109,10110,0,
10110,0,10111,2,
417,5,10112,0,
10112,0,10113,2,
4,0,10114,2,
10113,10114,10115,0,
399,0,10116,2,
10115,10116,10117,0,
10117,0,10118,2,
10111,10118,10119,0,
10119,0,10120,2,
452,7,10121,0,
10121,0,10122,2,
131,10122,10123,0,
10123,0,10124,2,
10124,0,10125,2,
10120,10125,10126,0,
10126,0,10127,2,
7,0,10128,2,
39,10128,10129,0,
10129,0,10130,2,
10127,10130,10131,0,
6,0,10132,2,
10122,10132,10133,0,
127,0,10134,2,
10133,10134,10135,0,
10135,0,10136,2,
3,381,10137,0,
10137,0,10138,2,
85,10138,10139,0,
1,0,10140,2,
33,10140,10141,0,
10141,0,10142,2,
0,0,10143,2,
72,10143,10144,0,
32,0,10145,2,
10145,0,10146,2,
10144,10146,10147,0,
10147,0,10148,2,
10142,10148,10149,0,
10149,0,10150,2,
10139,10150,10151,0,
10151,0,10152,2,
3,0,10153,2,
35,10153,10154,0,
10154,0,10155,2,
10152,10155,10156,0,
2,10137,10157,1,
2,10137,10158,0,
10157,10158,10159,1,
10159,0,10160,2,
81,0,10161,2,
10160,10161,10162,0,
10162,0,10163,2,
10156,10163,10164,0,
10164,0,10165,2,
10124,0,10166,2,
10165,10166,10167,0,
107,10113,10168,0,
10167,10168,10169,0,
10169,0,10170,2,
10136,10170,10171,0,
10131,10171,10172,0,
10172,0,10173,2,
10108,10173,10174,0,
10107,10174,10175,0,
10175,0,10176,2,
10103,10176,10177,0,
10060,10177,10178,0,
10178,0,10179,2,
10008,0,10180,2,
10179,10180,10181,0,
10024,0,10182,2,
10181,10182,10183,0,
10030,0,10184,2,
9997,10184,10185,0,
10185,245,10186,0,
10183,10186,10187,0,
10187,0,10188,2,
10037,10188,10189,0,
10189,0,10190,2,
10190,0,10191,2,
23,10191,10192,0,
10192,0,10193,2,
55,0,10194,2,
10194,0,10195,2,
23,10195,10196,0,
10196,0,10197,2,
10193,10197,10198,0,
10194,0,10199,2,
10189,10199,10200,0,
10200,0,10201,2,
10198,10201,10202,0,
10202,0,10203,2,
56,24,10204,1,
10204,0,10205,2,
10205,0,10206,2,
10203,10206,10207,0,
10207,0,10208,2,
720,1099,10209,1,
10190,10209,10210,0,
720,10210,10211,1,
9465,9084,10212,1,
10189,10212,10213,0,
9465,10213,10214,1,
9465,9848,10215,1,
10190,10215,10216,0,
9465,10216,10217,1,
10190,0,10218,2,
9848,10218,10219,0,
10219,0,10220,2,
10145,0,10221,2,
9848,10221,10222,0,
10222,0,10223,2,
10220,10223,10224,0,
10214,0,10225,2,
10224,10225,10226,0,
9916,9910,10227,1,
9916,9910,10228,0,
10227,10228,10229,1,
10229,0,10230,2,
9904,0,10231,2,
10230,10231,10232,0,
10226,10232,10233,0,
9934,9928,10234,1,
9934,9928,10235,0,
10234,10235,10236,1,
10236,0,10237,2,
9922,0,10238,2,
10237,10238,10239,0,
9946,9940,10240,1,
9946,9940,10241,0,
10240,10241,10242,1,
10242,0,10243,2,
9958,9952,10244,1,
9958,9952,10245,0,
10244,10245,10246,1,
10246,0,10247,2,
10243,10247,10248,0,
10239,10248,10249,0,
10233,10249,10250,0,
9970,9964,10251,1,
9970,9964,10252,0,
10251,10252,10253,1,
10253,0,10254,2,
9850,0,10255,2,
10254,10255,10256,0,
9856,9981,10257,1,
9856,9981,10258,0,
10257,10258,10259,1,
10259,0,10260,2,
9976,0,10261,2,
10260,10261,10262,0,
10256,10262,10263,0,
9874,9868,10264,1,
9874,9868,10265,0,
10264,10265,10266,1,
10266,0,10267,2,
9862,0,10268,2,
10267,10268,10269,0,
9886,9880,10270,1,
9886,9880,10271,0,
10270,10271,10272,1,
10272,0,10273,2,
9898,9892,10274,1,
9898,9892,10275,0,
10274,10275,10276,1,
10276,0,10277,2,
10273,10277,10278,0,
10269,10278,10279,0,
10263,10279,10280,0,
10250,10280,10281,0,
10281,0,10282,2,
10217,10282,10283,0,
10214,10283,10284,0,
8703,9084,10285,1,
10190,10285,10286,0,
8703,10286,10287,1,
10284,10287,10288,0,
8322,8703,10289,1,
10190,10289,10290,0,
8322,10290,10291,1,
10288,10291,10292,0,
7941,8322,10293,1,
10190,10293,10294,0,
7941,10294,10295,1,
10292,10295,10296,0,
7560,7941,10297,1,
10190,10297,10298,0,
7560,10298,10299,1,
10296,10299,10300,0,
7179,7560,10301,1,
10190,10301,10302,0,
7179,10302,10303,1,
10300,10303,10304,0,
6798,7179,10305,1,
10190,10305,10306,0,
6798,10306,10307,1,
10304,10307,10308,0,
6417,6798,10309,1,
10190,10309,10310,0,
6417,10310,10311,1,
10308,10311,10312,0,
6036,6417,10313,1,
10190,10313,10314,0,
6036,10314,10315,1,
10312,10315,10316,0,
5655,6036,10317,1,
10190,10317,10318,0,
5655,10318,10319,1,
10316,10319,10320,0,
5274,5655,10321,1,
10190,10321,10322,0,
5274,10322,10323,1,
10320,10323,10324,0,
4893,5274,10325,1,
10190,10325,10326,0,
4893,10326,10327,1,
10324,10327,10328,0,
4512,4893,10329,1,
10190,10329,10330,0,
4512,10330,10331,1,
10328,10331,10332,0,
4131,4512,10333,1,
10190,10333,10334,0,
4131,10334,10335,1,
10332,10335,10336,0,
3750,4131,10337,1,
10190,10337,10338,0,
3750,10338,10339,1,
10336,10339,10340,0,
3369,3750,10341,1,
10190,10341,10342,0,
3369,10342,10343,1,
10340,10343,10344,0,
2988,3369,10345,1,
10190,10345,10346,0,
2988,10346,10347,1,
10344,10347,10348,0,
2607,2988,10349,1,
10190,10349,10350,0,
2607,10350,10351,1,
10348,10351,10352,0,
2230,2607,10353,1,
10190,10353,10354,0,
2230,10354,10355,1,
10352,10355,10356,0,
1853,2230,10357,1,
10190,10357,10358,0,
1853,10358,10359,1,
10356,10359,10360,0,
1476,1853,10361,1,
10190,10361,10362,0,
1476,10362,10363,1,
10360,10363,10364,0,
1099,1476,10365,1,
10190,10365,10366,0,
1099,10366,10367,1,
10364,10367,10368,0,
10211,10368,10369,1,
10367,10364,10370,1,
10363,10360,10371,1,
10359,10356,10372,1,
10355,10352,10373,1,
10351,10348,10374,1,
10347,10344,10375,1,
10343,10340,10376,1,
10339,10336,10377,1,
10335,10332,10378,1,
10331,10328,10379,1,
10327,10324,10380,1,
10323,10320,10381,1,
10319,10316,10382,1,
10315,10312,10383,1,
10311,10308,10384,1,
10307,10304,10385,1,
10303,10300,10386,1,
10299,10296,10387,1,
10295,10292,10388,1,
10291,10288,10389,1,
10287,10284,10390,1,
10283,10214,10391,1,
24,23,10392,0,
26,25,10393,0,
10392,10393,10394,0,
28,27,10395,0,
30,29,10396,0,
10395,10396,10397,0,
10394,10397,10398,0,
10398,0,10399,2,
56,0,10400,2,
10194,10400,10401,0,
57,0,10402,2,
58,0,10403,2,
10402,10403,10404,0,
10401,10404,10405,0,
59,0,10406,2,
60,0,10407,2,
10406,10407,10408,0,
61,62,10409,1,
61,62,10410,0,
10409,10410,10411,1,
10411,0,10412,2,
10408,10412,10413,0,
10405,10413,10414,0,
10414,0,10415,2,
10399,10415,10416,0,
55,0,10417,2,
10203,10417,10418,0,
10418,0,10419,2,
10205,55,10420,1,
10205,55,10421,0,
10420,10421,10422,1,
10419,10422,10423,0,
10423,10208,10424,0,
24,0,10425,2,
56,10425,10426,0,
10424,10426,10427,1,
10424,10426,10428,0,
10427,10428,10429,1,
57,25,10430,1,
10430,0,10431,2,
10431,10426,10432,1,
10431,10426,10433,0,
10432,10433,10434,1,
10429,10434,10435,0,
10424,10431,10436,1,
10424,10431,10437,0,
10436,10437,10438,1,
10435,10438,10439,0,
25,0,10440,2,
57,10440,10441,0,
10439,10441,10442,1,
10439,10441,10443,0,
10442,10443,10444,1,
58,26,10445,1,
10445,0,10446,2,
10446,10441,10447,1,
10446,10441,10448,0,
10447,10448,10449,1,
10444,10449,10450,0,
10439,10446,10451,1,
10439,10446,10452,0,
10451,10452,10453,1,
10450,10453,10454,0,
26,0,10455,2,
58,10455,10456,0,
10454,10456,10457,1,
10454,10456,10458,0,
10457,10458,10459,1,
59,27,10460,1,
10460,0,10461,2,
10461,10456,10462,1,
10461,10456,10463,0,
10462,10463,10464,1,
10459,10464,10465,0,
10454,10461,10466,1,
10454,10461,10467,0,
10466,10467,10468,1,
10465,10468,10469,0,
27,0,10470,2,
59,10470,10471,0,
10469,10471,10472,1,
10469,10471,10473,0,
10472,10473,10474,1,
60,28,10475,1,
10475,0,10476,2,
10476,10471,10477,1,
10476,10471,10478,0,
10477,10478,10479,1,
10474,10479,10480,0,
10469,10476,10481,1,
10469,10476,10482,0,
10481,10482,10483,1,
10480,10483,10484,0,
28,0,10485,2,
60,10485,10486,0,
10484,10486,10487,1,
10484,10486,10488,0,
10487,10488,10489,1,
61,29,10490,1,
10490,0,10491,2,
10491,10486,10492,1,
10491,10486,10493,0,
10492,10493,10494,1,
10489,10494,10495,0,
10484,10491,10496,1,
10484,10491,10497,0,
10496,10497,10498,1,
10495,10498,10499,0,
29,0,10500,2,
61,10500,10501,0,
10499,10501,10502,1,
10499,10501,10503,0,
10502,10503,10504,1,
62,30,10505,1,
10505,10501,10506,1,
10505,10501,10507,0,
10506,10507,10508,1,
10504,10508,10509,0,
10505,10499,10510,1,
10505,10499,10511,0,
10510,10511,10512,1,
10509,10512,10513,0,
10513,0,10514,2,
62,0,10515,2,
30,10515,10516,0,
10516,0,10517,2,
10514,10517,10518,1,
10518,0,10519,2,
10203,55,10520,1,
10520,10205,10521,1,
10501,10499,10522,1,
10522,0,10523,2,
10523,10505,10524,1,
10524,0,10525,2,
10525,0,10526,2,
10521,10526,10527,0,
55,23,10528,1,
10528,0,10529,2,
10529,10190,10530,1,
10441,10439,10531,1,
10531,0,10532,2,
10532,10446,10533,1,
10533,0,10534,2,
10534,0,10535,2,
10530,10535,10536,0,
10527,10536,10537,0,
10471,10469,10538,1,
10538,0,10539,2,
10539,10476,10540,1,
10426,10424,10541,1,
10541,0,10542,2,
10542,10431,10543,1,
10543,0,10544,2,
10544,0,10545,2,
10540,10545,10546,0,
10486,10484,10547,1,
10547,0,10548,2,
10548,10491,10549,1,
10456,10454,10550,1,
10550,0,10551,2,
10551,10461,10552,1,
10552,0,10553,2,
10553,0,10554,2,
10549,10554,10555,0,
10546,10555,10556,0,
10537,10556,10557,0,
10557,0,10558,2,
10519,10558,10559,0,
10559,0,10560,2,
10514,0,10561,2,
10517,10561,10562,0,
10562,0,10563,2,
10560,10563,10564,0,
10564,0,10565,2,
10416,10565,10566,0,
10549,0,10567,2,
10553,10567,10568,0,
10540,0,10569,2,
10544,10569,10570,0,
10568,10570,10571,0,
10533,10530,10572,1,
10533,10530,10573,0,
10572,10573,10574,1,
10574,0,10575,2,
10521,0,10576,2,
10525,10576,10577,0,
10575,10577,10578,0,
10571,10578,10579,0,
10579,0,10580,2,
10566,10580,10581,0,
10194,0,10582,2,
56,10582,10583,0,
10402,0,10584,2,
58,10584,10585,0,
10583,10585,10586,0,
10406,0,10587,2,
60,10587,10588,0,
61,62,10589,0,
10588,10589,10590,0,
10586,10590,10591,0,
10591,0,10592,2,
23,24,10593,1,
23,24,10594,0,
10593,10594,10595,1,
10595,0,10596,2,
25,26,10597,1,
25,26,10598,0,
10597,10598,10599,1,
10599,0,10600,2,
10596,10600,10601,0,
27,28,10602,1,
27,28,10603,0,
10602,10603,10604,1,
10604,0,10605,2,
29,30,10606,1,
29,30,10607,0,
10606,10607,10608,1,
10608,0,10609,2,
10605,10609,10610,0,
10601,10610,10611,0,
10611,0,10612,2,
10563,10612,10613,0,
10592,10613,10614,0,
10581,10614,10615,0,
10382,10615,10616,0,
10383,10615,10617,0,
10384,10615,10618,0,
10385,10615,10619,0,
10386,10615,10620,0,
10387,10615,10621,0,
10388,10615,10622,0,
10612,10415,10623,1,
10612,10415,10624,0,
10623,10624,10625,1,
10592,10399,10626,1,
10592,10399,10627,0,
10626,10627,10628,1,
10625,10628,10629,0,
31,63,10630,1,
10629,10630,10631,0,
10525,0,10632,2,
10615,10632,10633,0,
10633,0,10634,2,
10634,10566,10635,0,
10635,0,10636,2,
10389,10615,10637,0,
10549,10615,10638,0,
10638,0,10639,2,
10639,10566,10640,0,
10640,0,10641,2,
10540,10615,10642,0,
10642,0,10643,2,
10643,10566,10644,0,
10644,0,10645,2,
10553,0,10646,2,
10615,10646,10647,0,
10647,0,10648,2,
10648,10566,10649,0,
10649,0,10650,2,
10534,0,10651,2,
10615,10651,10652,0,
10652,0,10653,2,
10653,10566,10654,0,
10654,0,10655,2,
10544,0,10656,2,
10615,10656,10657,0,
10657,0,10658,2,
10658,10566,10659,0,
10659,0,10660,2,
10521,10615,10661,0,
10661,0,10662,2,
10662,10566,10663,0,
10663,0,10664,2,
10530,10615,10665,0,
10665,0,10666,2,
10666,10566,10667,0,
10667,0,10668,2,
10369,10615,10669,0,
10370,10615,10670,0,
10371,10615,10671,0,
10390,10615,10672,0,
10372,10615,10673,0,
10373,10615,10674,0,
10374,10615,10675,0,
10375,10615,10676,0,
10376,10615,10677,0,
10377,10615,10678,0,
10378,10615,10679,0,
10379,10615,10680,0,
10380,10615,10681,0,
10381,10615,10682,0,
10391,10615,10683,0,
0,0,10684,1,
10684,10683,10685,1,
10684,10672,10686,1,
10684,10637,10687,1,
10684,10622,10688,1,
10684,10621,10689,1,
10684,10620,10690,1,
10684,10619,10691,1,
10684,10618,10692,1,
10684,10617,10693,1,
10684,10616,10694,1,
10684,10682,10695,1,
10684,10681,10696,1,
10684,10680,10697,1,
10684,10679,10698,1,
10684,10678,10699,1,
10684,10677,10700,1,
10684,10676,10701,1,
10684,10675,10702,1,
10684,10674,10703,1,
10684,10673,10704,1,
10684,10671,10705,1,
10684,10670,10706,1,
10684,10669,10707,1,
10684,10668,10708,1,
10684,10664,10709,1,
10684,10660,10710,1,
10684,10655,10711,1,
10684,10650,10712,1,
10684,10645,10713,1,
10684,10641,10714,1,
10684,10636,10715,1,
10684,10631,10716,1,
