// made by tools/calibrate/run.sh
namespace coulombbin { const std::map< int, Accuracy > table = {
{15758,{0.00012,9.9e-05,6.3e-09}},
{15858,{0.00011,9.2e-05,4.8e-09}},
{15859,{0.00011,9e-05,4.6e-09}},
{15860,{7.2e-05,6e-05,1.3e-09}},
{15958,{5.3e-08,7.3e-08,3.4e-20}},
{15959,{3.3e-05,2.9e-05,1.7e-10}},
{15960,{7e-05,5.9e-05,1.2e-09}},
{16058,{1.3e-09,5.4e-10,1.6e-36}},
{16059,{6.7e-09,8.4e-09,9.3e-26}},
{16060,{2.4e-06,2.1e-06,1.2e-13}},
{25758,{6.4e-06,4.6e-06,4.1e-09}},
{25759,{4.8e-06,3.9e-06,2.2e-07}},
{25760,{5.9e-06,4.7e-06,3.8e-06}},
{25858,{6.1e-06,4.4e-06,8.1e-10}},
{25859,{5.9e-06,4.2e-06,2.9e-08}},
{25860,{5.8e-06,4.5e-06,3.2e-06}},
{25960,{4.8e-06,3.4e-06,2.1e-08}},
{35441,{0.0042,0.0048,2.8e-16}},
{35442,{0.0033,0.0035,3.7e-16}},
{35443,{0.0023,0.0022,6.2e-16}},
{35444,{0.0016,0.0014,1e-15}},
{35445,{0.0011,0.0009,2e-15}},
{35446,{0.00078,0.00058,5.2e-15}},
{35447,{0.00054,0.00038,1.5e-14}},
{35448,{0.00038,0.00025,5e-14}},
{35449,{0.00026,0.00016,2.4e-13}},
{35450,{0.00018,0.00011,1.6e-12}},
{35451,{0.00012,7e-05,1.3e-11}},
{35452,{7.7e-05,4.6e-05,1.5e-10}},
{35453,{4.7e-05,2.9e-05,2e-09}},
{35454,{2.6e-05,1.8e-05,2.4e-08}},
{35455,{1.3e-05,1.1e-05,8.5e-08}},
{35456,{4.1e-06,5.2e-06,8.7e-08}},
{35541,{0.0059,0.006,6.4e-18}},
{35542,{0.0047,0.0044,8.7e-18}},
{35543,{0.0033,0.0028,1.5e-17}},
{35544,{0.0023,0.0018,2.7e-17}},
{35545,{0.0016,0.0012,6e-17}},
{35546,{0.0011,0.00076,1.6e-16}},
{35547,{0.00081,0.0005,4.4e-16}},
{35548,{0.00057,0.00033,2.1e-15}},
{35549,{0.0004,0.00022,1.1e-14}},
{35550,{0.00028,0.00015,8.3e-14}},
{35551,{0.00019,9.8e-05,8.4e-13}},
{35552,{0.00013,6.5e-05,1.2e-11}},
{35553,{8.4e-05,4.3e-05,2.6e-10}},
{35554,{5.2e-05,2.7e-05,5.3e-09}},
{35555,{2.9e-05,1.7e-05,5.5e-08}},
{35556,{1.3e-05,9.5e-06,7.9e-08}},
{35557,{4.1e-06,4.6e-06,6.8e-08}},
{35641,{0.0083,0.0075,7.5e-24}},
{35642,{0.0066,0.0056,1.2e-23}},
{35643,{0.0047,0.0036,2.3e-23}},
{35644,{0.0033,0.0023,4.6e-23}},
{35645,{0.0024,0.0015,1.2e-22}},
{35646,{0.0017,0.001,4.1e-22}},
{35647,{0.0012,0.00067,1.6e-21}},
{35648,{0.00087,0.00045,1.1e-20}},
{35649,{0.00062,0.0003,8.5e-20}},
{35650,{0.00045,0.0002,1.3e-18}},
{35651,{0.00032,0.00014,2.4e-17}},
{35652,{0.00022,9.2e-05,8.7e-16}},
{35653,{0.00015,6.1e-05,4.4e-14}},
{35654,{9.7e-05,4e-05,3.7e-12}},
{35655,{6e-05,2.5e-05,4.3e-10}},
{35656,{3.2e-05,1.6e-05,2.2e-08}},
{35657,{1.5e-05,8.9e-06,5.7e-08}},
{35658,{4.6e-06,4.3e-06,5e-08}},
{35741,{0.011,0.0091,2.3e-32}},
{35742,{0.0088,0.0068,3.9e-32}},
{35743,{0.0063,0.0045,9.9e-32}},
{35744,{0.0045,0.0029,2.6e-31}},
{35745,{0.0032,0.0019,7.7e-31}},
{35746,{0.0023,0.0013,3.6e-30}},
{35747,{0.0017,0.00085,2.4e-29}},
{35748,{0.0012,0.00058,2e-28}},
{35749,{0.00091,0.00039,2.8e-27}},
{35750,{0.00066,0.00026,7.2e-26}},
{35751,{0.00048,0.00018,2.5e-24}},
{35752,{0.00034,0.00012,2.6e-22}},
{35753,{0.00024,8.2e-05,4.6e-20}},
{35754,{0.00016,5.5e-05,1.4e-17}},
{35755,{0.0001,3.6e-05,8.7e-15}},
{35756,{6.1e-05,2.3e-05,1.1e-11}},
{35757,{3.2e-05,1.4e-05,5.8e-09}},
{35758,{1.4e-05,7.6e-06,4.1e-08}},
{35759,{3.1e-06,3.3e-06,3.7e-08}},
{45456,{9.4e-06,2.9e-06,4.5e-06}},
{45457,{1.1e-05,1e-05,9.9e-06}},
{45458,{1.5e-05,1.3e-05,1.3e-05}},
{45557,{1.1e-05,1e-05,9.8e-06}},
{45558,{1.4e-05,1.3e-05,1.2e-05}},
{45559,{1.4e-05,1.3e-05,1.1e-05}},
{45658,{9.9e-06,8.9e-06,8e-06}},
{45659,{1.3e-05,1.1e-05,1e-05}},
{45660,{9.7e-06,8.6e-06,6e-06}},
{45759,{7.1e-06,6.3e-06,5.8e-06}},
{45760,{9.2e-06,7.8e-06,5.9e-06}},
{55458,{1e-05,8e-06,1e-05}},
{55459,{2.8e-06,3.5e-06,2.9e-06}},
{55460,{1.6e-08,1.3e-08,8.5e-09}},
{55558,{1e-05,7.7e-06,9.6e-06}},
{55559,{1e-05,7.4e-06,9.3e-06}},
{55560,{4e-07,3.1e-07,3.2e-07}},
{55659,{9.2e-06,6.9e-06,7.8e-06}},
{55660,{7.2e-06,6.2e-06,5.8e-06}},
{55760,{5.6e-06,5.6e-06,4.1e-06}},
{5741,{0.012,0.0095,5.2e-42}},
{5742,{0.0094,0.0071,1.3e-41}},
{5743,{0.0067,0.0046,3.2e-41}},
{5744,{0.0048,0.003,1.1e-40}},
{5745,{0.0035,0.002,4.2e-40}},
{5746,{0.0025,0.0013,2.5e-39}},
{5747,{0.0018,0.0009,2.1e-38}},
{5748,{0.0013,0.0006,2.8e-37}},
{5749,{0.00097,0.00041,7.3e-36}},
{5750,{0.0007,0.00028,2.5e-34}},
{5751,{0.00051,0.00019,1.8e-32}},
{5752,{0.00036,0.00013,3.9e-30}},
{5753,{0.00024,8.7e-05,2e-27}},
{5754,{0.00016,5.8e-05,2.6e-24}},
{5755,{9.9e-05,3.8e-05,7.9e-21}},
{5756,{5.3e-05,2.5e-05,4.3e-17}},
{5757,{2.1e-05,1.5e-05,1.4e-13}},
{5841,{0.017,0.012,1.4e-44}},
{5842,{0.013,0.0093,2.7e-44}},
{5843,{0.0097,0.006,7.4e-44}},
{5844,{0.007,0.004,2.5e-43}},
{5845,{0.0051,0.0027,1.4e-42}},
{5846,{0.0038,0.0018,8.7e-42}},
{5847,{0.0028,0.0012,8.3e-41}},
{5848,{0.0021,0.00082,7.7e-40}},
{5849,{0.0015,0.00057,2.5e-38}},
{5850,{0.0011,0.00038,1.4e-36}},
{5851,{0.00082,0.00026,1.3e-34}},
{5852,{0.00059,0.00018,2.8e-32}},
{5853,{0.00041,0.00012,1.8e-29}},
{5854,{0.00028,8.4e-05,3.5e-26}},
{5855,{0.00018,5.6e-05,1.3e-22}},
{5856,{9.7e-05,3.7e-05,1.2e-18}},
{5857,{3.9e-05,2.4e-05,2.7e-15}},
{5941,{0.024,0.016,0}},
{5942,{0.02,0.012,0}},
{5943,{0.014,0.0081,0}},
{5944,{0.01,0.0054,0}},
{5945,{0.0077,0.0036,0}},
{5946,{0.0057,0.0024,0}},
{5947,{0.0043,0.0017,0}},
{5948,{0.0032,0.0011,0}},
{5949,{0.0024,0.00078,0}},
{5950,{0.0018,0.00054,0}},
{5951,{0.0013,0.00037,0}},
{5952,{0.00097,0.00025,0}},
{5953,{0.00069,0.00017,1.4e-43}},
{5954,{0.00047,0.00012,1.2e-39}},
{5955,{0.0003,8.2e-05,4.7e-35}},
{5956,{0.00017,5.5e-05,7.7e-30}},
{5957,{7.2e-05,3.7e-05,4.4e-25}},
{6041,{0.031,0.019,0}},
{6042,{0.025,0.014,0}},
{6043,{0.018,0.0097,0}},
{6044,{0.014,0.0065,0}},
{6045,{0.01,0.0044,0}},
{6046,{0.0076,0.003,0}},
{6047,{0.0057,0.002,0}},
{6048,{0.0043,0.0014,0}},
{6049,{0.0033,0.00096,0}},
{6050,{0.0024,0.00067,0}},
{6051,{0.0018,0.00045,0}},
{6052,{0.0013,0.00032,0}},
{6053,{0.00096,0.00022,0}},
{6054,{0.00066,0.00015,0}},
{6055,{0.00042,0.0001,0}},
{6056,{0.00024,7e-05,0}},
{6057,{0.00011,4.7e-05,4.7e-41}},
{62341,{4.5e-06,1.3e-05,2.3e-07}},
{62342,{4.5e-06,1.2e-05,3e-07}},
{62343,{4.4e-06,1.2e-05,3.6e-07}},
{62344,{4.2e-06,1.2e-05,3.8e-07}},
{62345,{4e-06,1.1e-05,3.7e-07}},
{62346,{3.9e-06,1e-05,2.5e-07}},
{62347,{6.3e-06,8.6e-06,1.5e-06}},
{62348,{7.7e-06,5.3e-06,4.1e-06}},
{62349,{8.7e-06,8.7e-06,8.1e-06}},
{62350,{1.4e-05,1.2e-05,1.1e-05}},
{62351,{1.5e-05,1.2e-05,1.2e-05}},
{62352,{1.5e-05,8.1e-06,1.3e-05}},
{62353,{1.1e-05,9.1e-06,1.2e-05}},
{62354,{1.4e-05,1e-05,1e-05}},
{62355,{1.2e-05,8e-06,9.4e-06}},
{62356,{1.2e-05,8.1e-06,9.4e-06}},
{62441,{4.5e-06,1.3e-05,2.3e-07}},
{62442,{4.5e-06,1.2e-05,3e-07}},
{62443,{4.4e-06,1.2e-05,3.6e-07}},
{62444,{4.3e-06,1.2e-05,3.8e-07}},
{62445,{4e-06,1.1e-05,3.7e-07}},
{62446,{3.9e-06,1e-05,2.5e-07}},
{62447,{6.3e-06,8.6e-06,1.5e-06}},
{62448,{7.7e-06,5.3e-06,4.1e-06}},
{62449,{8.7e-06,8.7e-06,8.1e-06}},
{62450,{1.4e-05,1.2e-05,1.1e-05}},
{62451,{1.5e-05,1.2e-05,1.2e-05}},
{62452,{1.5e-05,8.1e-06,1.3e-05}},
{62453,{1.1e-05,9.1e-06,1.2e-05}},
{62454,{1.4e-05,1e-05,1e-05}},
{62455,{1.2e-05,8e-06,9.4e-06}},
{62456,{1.2e-05,8.1e-06,9.4e-06}},
{62541,{4.6e-06,1.3e-05,2.3e-07}},
{62542,{4.5e-06,1.3e-05,3e-07}},
{62543,{4.4e-06,1.2e-05,3.6e-07}},
{62544,{4.3e-06,1.2e-05,3.8e-07}},
{62545,{4e-06,1.1e-05,3.7e-07}},
{62546,{3.9e-06,1e-05,2.5e-07}},
{62547,{6.3e-06,8.6e-06,1.5e-06}},
{62548,{7.7e-06,5.3e-06,4.1e-06}},
{62549,{8.7e-06,8.7e-06,8.1e-06}},
{62550,{1.4e-05,1.2e-05,1.1e-05}},
{62551,{1.5e-05,1.2e-05,1.2e-05}},
{62552,{1.5e-05,8.1e-06,1.3e-05}},
{62553,{1.1e-05,9.1e-06,1.2e-05}},
{62554,{1.4e-05,1e-05,1e-05}},
{62555,{1.2e-05,8e-06,9.4e-06}},
{62556,{1.2e-05,8.1e-06,9.4e-06}},
{62641,{4.7e-06,1.4e-05,2.4e-07}},
{62642,{4.6e-06,1.3e-05,3e-07}},
{62643,{4.5e-06,1.2e-05,3.6e-07}},
{62644,{4.3e-06,1.2e-05,3.8e-07}},
{62645,{4e-06,1.1e-05,3.8e-07}},
{62646,{3.9e-06,1e-05,2.5e-07}},
{62647,{6.3e-06,8.6e-06,1.5e-06}},
{62648,{7.7e-06,5.3e-06,4.1e-06}},
{62649,{8.7e-06,8.7e-06,8.1e-06}},
{62650,{1.4e-05,1.2e-05,1.1e-05}},
{62651,{1.5e-05,1.2e-05,1.2e-05}},
{62652,{1.5e-05,8.1e-06,1.3e-05}},
{62653,{1.1e-05,9.1e-06,1.2e-05}},
{62654,{1.4e-05,1e-05,1e-05}},
{62655,{1.2e-05,8e-06,9.4e-06}},
{62656,{1.2e-05,8.1e-06,9.4e-06}},
{62741,{4.8e-06,1.5e-05,2.4e-07}},
{62742,{4.7e-06,1.4e-05,3e-07}},
{62743,{4.5e-06,1.3e-05,3.6e-07}},
{62744,{4.3e-06,1.2e-05,3.8e-07}},
{62745,{4.1e-06,1.1e-05,3.8e-07}},
{62746,{3.9e-06,1e-05,2.5e-07}},
{62747,{6.3e-06,8.6e-06,1.5e-06}},
{62748,{7.7e-06,5.3e-06,4.1e-06}},
{62749,{8.7e-06,8.7e-06,8.1e-06}},
{62750,{1.4e-05,1.2e-05,1.1e-05}},
{62751,{1.5e-05,1.2e-05,1.2e-05}},
{62752,{1.5e-05,8.1e-06,1.3e-05}},
{62753,{1.1e-05,9.1e-06,1.2e-05}},
{62754,{1.4e-05,1e-05,1e-05}},
{62755,{1.2e-05,8e-06,9.4e-06}},
{62756,{1.2e-05,8.1e-06,9.4e-06}},
{62841,{4.9e-06,1.6e-05,2.4e-07}},
{62842,{4.8e-06,1.5e-05,3.1e-07}},
{62843,{4.6e-06,1.3e-05,3.7e-07}},
{62844,{4.4e-06,1.2e-05,3.9e-07}},
{62845,{4.1e-06,1.1e-05,3.8e-07}},
{62846,{3.8e-06,1e-05,2.6e-07}},
{62847,{6.3e-06,8.7e-06,1.4e-06}},
{62848,{7.7e-06,5.3e-06,4.1e-06}},
{62849,{8.7e-06,8.7e-06,8.1e-06}},
{62850,{1.4e-05,1.2e-05,1.1e-05}},
{62851,{1.5e-05,1.2e-05,1.2e-05}},
{62852,{1.5e-05,8.1e-06,1.3e-05}},
{62853,{1.1e-05,9.1e-06,1.2e-05}},
{62854,{1.4e-05,1e-05,1e-05}},
{62855,{1.2e-05,8e-06,9.4e-06}},
{62856,{1.2e-05,8.1e-06,9.4e-06}},
{62941,{5.1e-06,1.8e-05,2.5e-07}},
{62942,{5e-06,1.6e-05,3.1e-07}},
{62943,{4.7e-06,1.4e-05,3.7e-07}},
{62944,{4.5e-06,1.2e-05,3.9e-07}},
{62945,{4.2e-06,1.2e-05,3.9e-07}},
{62946,{3.8e-06,1e-05,2.6e-07}},
{62947,{6.3e-06,8.7e-06,1.4e-06}},
{62948,{7.7e-06,5.3e-06,4.1e-06}},
{62949,{8.7e-06,8.7e-06,8.1e-06}},
{62950,{1.4e-05,1.2e-05,1.1e-05}},
{62951,{1.5e-05,1.2e-05,1.2e-05}},
{62952,{1.5e-05,8.1e-06,1.3e-05}},
{62953,{1.1e-05,9.1e-06,1.2e-05}},
{62954,{1.4e-05,1e-05,1e-05}},
{62955,{1.2e-05,8e-06,9.4e-06}},
{62956,{1.2e-05,8.2e-06,9.4e-06}},
{63041,{5.4e-06,2.1e-05,2.6e-07}},
{63042,{5.2e-06,1.7e-05,3.2e-07}},
{63043,{4.9e-06,1.4e-05,3.8e-07}},
{63044,{4.6e-06,1.3e-05,4e-07}},
{63045,{4.2e-06,1.2e-05,3.9e-07}},
{63046,{3.8e-06,1.1e-05,2.7e-07}},
{63047,{6.3e-06,8.8e-06,1.4e-06}},
{63048,{7.7e-06,5.4e-06,4.1e-06}},
{63049,{8.7e-06,8.7e-06,8.1e-06}},
{63050,{1.4e-05,1.2e-05,1.1e-05}},
{63051,{1.5e-05,1.2e-05,1.2e-05}},
{63052,{1.5e-05,8.1e-06,1.3e-05}},
{63053,{1.1e-05,9.1e-06,1.2e-05}},
{63054,{1.4e-05,1e-05,1e-05}},
{63055,{1.2e-05,8e-06,9.4e-06}},
{63056,{1.2e-05,8.2e-06,9.4e-06}},
{63141,{5.9e-06,2.4e-05,2.7e-07}},
{63142,{5.6e-06,2e-05,3.3e-07}},
{63143,{5.1e-06,1.6e-05,3.9e-07}},
{63144,{4.8e-06,1.3e-05,4.1e-07}},
{63145,{4.4e-06,1.2e-05,4e-07}},
{63146,{3.8e-06,1.1e-05,2.8e-07}},
{63147,{6.3e-06,8.8e-06,1.4e-06}},
{63148,{7.7e-06,5.4e-06,4e-06}},
{63149,{8.7e-06,8.7e-06,8.1e-06}},
{63150,{1.4e-05,1.2e-05,1.1e-05}},
{63151,{1.5e-05,1.2e-05,1.2e-05}},
{63152,{1.5e-05,8.1e-06,1.3e-05}},
{63153,{1.1e-05,9.1e-06,1.2e-05}},
{63154,{1.4e-05,1e-05,1e-05}},
{63155,{1.2e-05,8e-06,9.4e-06}},
{63156,{1.2e-05,8.2e-06,9.4e-06}},
{63241,{6.5e-06,3e-05,2.9e-07}},
{63242,{6e-06,2.3e-05,3.5e-07}},
{63243,{5.5e-06,1.7e-05,4e-07}},
{63244,{5e-06,1.4e-05,4.2e-07}},
{63245,{4.5e-06,1.2e-05,4.2e-07}},
{63246,{3.9e-06,1.1e-05,2.9e-07}},
{63247,{6.3e-06,8.9e-06,1.4e-06}},
{63248,{7.7e-06,5.5e-06,4e-06}},
{63249,{8.7e-06,8.6e-06,8.1e-06}},
{63250,{1.4e-05,1.2e-05,1.1e-05}},
{63251,{1.5e-05,1.2e-05,1.2e-05}},
{63252,{1.5e-05,8.1e-06,1.3e-05}},
{63253,{1.1e-05,9.1e-06,1.2e-05}},
{63254,{1.4e-05,1e-05,1e-05}},
{63255,{1.2e-05,8e-06,9.5e-06}},
{63256,{1.2e-05,8.2e-06,9.4e-06}},
{63341,{7.4e-06,3.7e-05,3.1e-07}},
{63342,{6.7e-06,2.8e-05,3.7e-07}},
{63343,{6e-06,2e-05,4.3e-07}},
{63344,{5.3e-06,1.5e-05,4.4e-07}},
{63345,{4.7e-06,1.3e-05,4.4e-07}},
{63346,{4e-06,1.1e-05,3.1e-07}},
{63347,{6.3e-06,9.1e-06,1.4e-06}},
{63348,{7.7e-06,5.6e-06,4e-06}},
{63349,{8.6e-06,8.6e-06,8e-06}},
{63350,{1.4e-05,1.2e-05,1.1e-05}},
{63351,{1.5e-05,1.2e-05,1.2e-05}},
{63352,{1.5e-05,8.1e-06,1.3e-05}},
{63353,{1.1e-05,9.1e-06,1.2e-05}},
{63354,{1.4e-05,1e-05,1e-05}},
{63355,{1.2e-05,8.1e-06,9.5e-06}},
{63356,{1.2e-05,8.2e-06,9.4e-06}},
{63441,{8.6e-06,4.7e-05,3.4e-07}},
{63442,{7.7e-06,3.5e-05,4e-07}},
{63443,{6.6e-06,2.3e-05,4.6e-07}},
{63444,{5.8e-06,1.7e-05,4.7e-07}},
{63445,{5.1e-06,1.4e-05,4.7e-07}},
{63446,{4.2e-06,1.2e-05,3.4e-07}},
{63447,{6.3e-06,9.4e-06,1.4e-06}},
{63448,{7.7e-06,5.7e-06,4e-06}},
{63449,{8.6e-06,8.5e-06,8e-06}},
{63450,{1.4e-05,1.2e-05,1.1e-05}},
{63451,{1.5e-05,1.2e-05,1.2e-05}},
{63452,{1.5e-05,8.1e-06,1.3e-05}},
{63453,{1.1e-05,9.1e-06,1.2e-05}},
{63454,{1.4e-05,1e-05,1e-05}},
{63455,{1.2e-05,8.1e-06,9.5e-06}},
{63456,{1.2e-05,8.2e-06,9.4e-06}},
{63541,{1e-05,6.2e-05,3.9e-07}},
{63542,{9.1e-06,4.4e-05,4.5e-07}},
{63543,{7.6e-06,2.8e-05,5e-07}},
{63544,{6.4e-06,1.9e-05,5.2e-07}},
{63545,{5.5e-06,1.5e-05,5.1e-07}},
{63546,{4.5e-06,1.2e-05,3.8e-07}},
{63547,{6.3e-06,9.6e-06,1.3e-06}},
{63548,{7.8e-06,5.9e-06,3.9e-06}},
{63549,{8.5e-06,8.5e-06,8e-06}},
{63550,{1.4e-05,1.2e-05,1.1e-05}},
{63551,{1.5e-05,1.2e-05,1.2e-05}},
{63552,{1.5e-05,8.1e-06,1.3e-05}},
{63553,{1.1e-05,9.1e-06,1.2e-05}},
{63554,{1.4e-05,1e-05,1e-05}},
{63555,{1.2e-05,8.1e-06,9.5e-06}},
{63556,{1.2e-05,8.2e-06,9.4e-06}},
{63641,{1.3e-05,8.3e-05,4.5e-07}},
{63642,{1.1e-05,5.7e-05,5.1e-07}},
{63643,{8.9e-06,3.4e-05,5.6e-07}},
{63644,{7.4e-06,2.3e-05,5.7e-07}},
{63645,{6.1e-06,1.7e-05,5.6e-07}},
{63646,{5e-06,1.3e-05,4.3e-07}},
{63647,{6.3e-06,1e-05,1.3e-06}},
{63648,{7.8e-06,6.2e-06,3.9e-06}},
{63649,{8.4e-06,8.3e-06,7.9e-06}},
{63650,{1.3e-05,1.2e-05,1.1e-05}},
{63651,{1.5e-05,1.2e-05,1.2e-05}},
{63652,{1.5e-05,8.1e-06,1.3e-05}},
{63653,{1.1e-05,9.1e-06,1.2e-05}},
{63654,{1.4e-05,1e-05,1e-05}},
{63655,{1.2e-05,8.1e-06,9.6e-06}},
{63656,{1.2e-05,8.3e-06,9.4e-06}},
{63741,{1.6e-05,0.00011,5.4e-07}},
{63742,{1.4e-05,7.5e-05,5.9e-07}},
{63743,{1.1e-05,4.4e-05,6.4e-07}},
{63744,{8.7e-06,2.8e-05,6.5e-07}},
{63745,{7e-06,1.9e-05,6.4e-07}},
{63746,{5.6e-06,1.4e-05,5.1e-07}},
{63747,{6.3e-06,1.1e-05,1.2e-06}},
{63748,{7.8e-06,6.6e-06,3.8e-06}},
{63749,{8.3e-06,8.1e-06,7.8e-06}},
{63750,{1.3e-05,1.2e-05,1.1e-05}},
{63751,{1.5e-05,1.2e-05,1.2e-05}},
{63752,{1.5e-05,8.1e-06,1.3e-05}},
{63753,{1.1e-05,9e-06,1.2e-05}},
{63754,{1.4e-05,1e-05,1e-05}},
{63755,{1.2e-05,8.1e-06,9.6e-06}},
{63756,{1.2e-05,8.4e-06,9.4e-06}},
{63841,{2.1e-05,0.00015,6.6e-07}},
{63842,{1.8e-05,0.0001,7.1e-07}},
{63843,{1.4e-05,5.7e-05,7.5e-07}},
{63844,{1.1e-05,3.4e-05,7.6e-07}},
{63845,{8.3e-06,2.2e-05,7.5e-07}},
{63846,{6.4e-06,1.6e-05,6.1e-07}},
{63847,{6.3e-06,1.2e-05,1.1e-06}},
{63848,{7.9e-06,7.2e-06,3.7e-06}},
{63849,{8.1e-06,7.9e-06,7.7e-06}},
{63850,{1.3e-05,1.2e-05,1.1e-05}},
{63851,{1.5e-05,1.2e-05,1.2e-05}},
{63852,{1.5e-05,8.1e-06,1.3e-05}},
{63853,{1.1e-05,9e-06,1.2e-05}},
{63854,{1.4e-05,1e-05,1e-05}},
{63855,{1.2e-05,8.2e-06,9.8e-06}},
{63856,{1.2e-05,8.4e-06,9.4e-06}},
{63941,{2.8e-05,0.00021,8.2e-07}},
{63942,{2.3e-05,0.00014,8.7e-07}},
{63943,{1.7e-05,7.5e-05,9e-07}},
{63944,{1.3e-05,4.4e-05,9.1e-07}},
{63945,{1e-05,2.7e-05,8.9e-07}},
{63946,{7.6e-06,1.9e-05,7.6e-07}},
{63947,{6.3e-06,1.3e-05,1e-06}},
{63948,{7.9e-06,7.9e-06,3.5e-06}},
{63949,{8e-06,7.6e-06,7.5e-06}},
{63950,{1.3e-05,1.2e-05,1.1e-05}},
{63951,{1.5e-05,1.2e-05,1.2e-05}},
{63952,{1.5e-05,8.1e-06,1.3e-05}},
{63953,{1.1e-05,8.9e-06,1.2e-05}},
{63954,{1.4e-05,1e-05,1e-05}},
{63955,{1.2e-05,8.2e-06,9.9e-06}},
{63956,{1.2e-05,8.5e-06,9.4e-06}},
{64041,{3.8e-05,0.00028,1e-06}},
{64042,{3.1e-05,0.00019,1.1e-06}},
{64043,{2.3e-05,0.0001,1.1e-06}},
{64044,{1.7e-05,5.7e-05,1.1e-06}},
{64045,{1.3e-05,3.4e-05,1.1e-06}},
{64046,{9.3e-06,2.2e-05,9.5e-07}},
{64047,{6.6e-06,1.5e-05,8.3e-07}},
{64048,{8e-06,9.1e-06,3.3e-06}},
{64049,{8.1e-06,7.2e-06,7.3e-06}},
{64050,{1.3e-05,1.2e-05,1e-05}},
{64051,{1.5e-05,1.2e-05,1.1e-05}},
{64052,{1.5e-05,8.1e-06,1.3e-05}},
{64053,{1.1e-05,8.9e-06,1.2e-05}},
{64054,{1.4e-05,1e-05,1.1e-05}},
{64055,{1.2e-05,8.3e-06,1e-05}},
{64056,{1.2e-05,8.7e-06,9.4e-06}},
{64141,{5.2e-05,0.00039,1.3e-06}},
{64142,{4.2e-05,0.00026,1.4e-06}},
{64143,{3e-05,0.00014,1.4e-06}},
{64144,{2.2e-05,7.6e-05,1.4e-06}},
{64145,{1.6e-05,4.4e-05,1.3e-06}},
{64146,{1.2e-05,2.7e-05,1.2e-06}},
{64147,{8.2e-06,1.7e-05,7.9e-07}},
{64148,{8.1e-06,1.1e-05,3e-06}},
{64149,{8.2e-06,6.4e-06,7e-06}},
{64150,{1.3e-05,1.2e-05,1e-05}},
{64151,{1.5e-05,1.2e-05,1.1e-05}},
{64152,{1.5e-05,8.1e-06,1.3e-05}},
{64153,{1.1e-05,8.8e-06,1.2e-05}},
{64154,{1.4e-05,1e-05,1.1e-05}},
{64155,{1.2e-05,8.4e-06,1e-05}},
{64156,{1.3e-05,8.9e-06,9.4e-06}},
{64241,{7.2e-05,0.00053,1.7e-06}},
{64242,{5.8e-05,0.00035,1.7e-06}},
{64243,{4.1e-05,0.00019,1.7e-06}},
{64244,{3e-05,0.0001,1.7e-06}},
{64245,{2.1e-05,5.7e-05,1.7e-06}},
{64246,{1.5e-05,3.4e-05,1.5e-06}},
{64247,{1e-05,2.1e-05,1.1e-06}},
{64248,{8.1e-06,1.3e-05,2.6e-06}},
{64249,{8.3e-06,5.5e-06,6.5e-06}},
{64250,{1.2e-05,1.2e-05,1e-05}},
{64251,{1.5e-05,1.2e-05,1.1e-05}},
{64252,{1.5e-05,8.2e-06,1.3e-05}},
{64253,{1.2e-05,8.6e-06,1.2e-05}},
{64254,{1.4e-05,1e-05,1.1e-05}},
{64255,{1.2e-05,8.5e-06,1.1e-05}},
{64256,{1.3e-05,9.1e-06,9.3e-06}},
{64341,{0.0001,0.00071,2e-06}},
{64342,{8e-05,0.00048,2e-06}},
{64343,{5.6e-05,0.00025,2.1e-06}},
{64344,{4e-05,0.00014,2.1e-06}},
{64345,{2.8e-05,7.5e-05,2e-06}},
{64346,{2e-05,4.4e-05,1.9e-06}},
{64347,{1.4e-05,2.6e-05,1.5e-06}},
{64348,{8.7e-06,1.6e-05,2e-06}},
{64349,{8.3e-06,7.3e-06,5.8e-06}},
{64350,{1.2e-05,1.1e-05,9.6e-06}},
{64351,{1.4e-05,1.1e-05,1.1e-05}},
{64352,{1.5e-05,8.3e-06,1.3e-05}},
{64353,{1.2e-05,8.4e-06,1.2e-05}},
{64354,{1.4e-05,1e-05,1.1e-05}},
{64355,{1.2e-05,8.6e-06,1.1e-05}},
{64356,{1.3e-05,9.4e-06,9.3e-06}},
{64441,{0.00014,0.00093,2.4e-06}},
{64442,{0.00011,0.00063,2.4e-06}},
{64443,{7.8e-05,0.00034,2.4e-06}},
{64444,{5.5e-05,0.00019,2.4e-06}},
{64445,{3.8e-05,0.0001,2.4e-06}},
{64446,{2.7e-05,5.7e-05,2.3e-06}},
{64447,{1.8e-05,3.4e-05,2e-06}},
{64448,{1.2e-05,2e-05,1.3e-06}},
{64449,{8.3e-06,1e-05,4.9e-06}},
{64450,{1.1e-05,1e-05,8.9e-06}},
{64451,{1.4e-05,1.1e-05,1e-05}},
{64452,{1.5e-05,8.3e-06,1.2e-05}},
{64453,{1.2e-05,8.1e-06,1.2e-05}},
{64454,{1.4e-05,1e-05,1.1e-05}},
{64455,{1.3e-05,9.1e-06,1.1e-05}},
{64456,{1.4e-05,1e-05,9.3e-06}},
{64541,{0.0002,0.0012,2.6e-06}},
{64542,{0.00016,0.0008,2.6e-06}},
{64543,{0.00011,0.00044,2.7e-06}},
{64544,{7.6e-05,0.00025,2.7e-06}},
{64545,{5.3e-05,0.00014,2.7e-06}},
{64546,{3.6e-05,7.6e-05,2.6e-06}},
{64547,{2.5e-05,4.4e-05,2.5e-06}},
{64548,{1.6e-05,2.6e-05,2e-06}},
{64549,{9.5e-06,1.4e-05,3.5e-06}},
{64550,{9.1e-06,8.7e-06,7.8e-06}},
{64551,{1.3e-05,1e-05,9.2e-06}},
{64552,{1.4e-05,8.3e-06,1.2e-05}},
{64553,{1.2e-05,8e-06,1.2e-05}},
{64554,{1.4e-05,1e-05,1.1e-05}},
{64555,{1.4e-05,9.8e-06,1.1e-05}},
{64556,{1.4e-05,1.1e-05,8.9e-06}},
{64641,{0.00027,0.0014,2.6e-06}},
{64642,{0.00022,0.00098,2.6e-06}},
{64643,{0.00015,0.00056,2.7e-06}},
{64644,{0.00011,0.00031,2.7e-06}},
{64645,{7.3e-05,0.00018,2.8e-06}},
{64646,{5e-05,0.0001,2.8e-06}},
{64647,{3.4e-05,5.8e-05,2.7e-06}},
{64648,{2.2e-05,3.3e-05,2.6e-06}},
{64649,{1.4e-05,1.9e-05,1.9e-06}},
{64650,{7.8e-06,9.1e-06,6e-06}},
{64651,{1.2e-05,9.1e-06,7.9e-06}},
{64652,{1.4e-05,8.2e-06,1.1e-05}},
{64653,{1.2e-05,8e-06,1.1e-05}},
{64654,{1.4e-05,9.7e-06,1e-05}},
{64655,{1.4e-05,1e-05,1e-05}},
{64656,{1.4e-05,1.1e-05,8.4e-06}},
{64741,{0.00039,0.0017,2.5e-06}},
{64742,{0.00031,0.0012,2.6e-06}},
{64743,{0.00021,0.00067,2.6e-06}},
{64744,{0.00015,0.00039,2.7e-06}},
{64745,{0.0001,0.00023,2.7e-06}},
{64746,{7.1e-05,0.00013,2.8e-06}},
{64747,{4.8e-05,7.6e-05,2.8e-06}},
{64748,{3.2e-05,4.4e-05,2.8e-06}},
{64749,{2.1e-05,2.5e-05,2.7e-06}},
{64750,{1.3e-05,1.5e-05,3.2e-06}},
{64751,{8.8e-06,7.5e-06,6.4e-06}},
{64752,{1.2e-05,7.6e-06,9.9e-06}},
{64753,{1.2e-05,7.6e-06,9.9e-06}},
{64754,{1.3e-05,8.9e-06,7.9e-06}},
{64755,{1.4e-05,1e-05,9e-06}},
{64756,{1.4e-05,1.1e-05,7.8e-06}},
{64841,{0.00055,0.0019,2e-06}},
{64842,{0.00044,0.0013,2e-06}},
{64843,{0.0003,0.00078,2.1e-06}},
{64844,{0.00021,0.00046,2.3e-06}},
{64845,{0.00015,0.00027,2.4e-06}},
{64846,{0.0001,0.00016,2.6e-06}},
{64847,{6.9e-05,9.7e-05,2.7e-06}},
{64848,{4.6e-05,5.8e-05,2.9e-06}},
{64849,{3.1e-05,3.4e-05,3.2e-06}},
{64850,{2.1e-05,2e-05,3.4e-06}},
{64851,{1.4e-05,1.2e-05,3.3e-06}},
{64852,{9.4e-06,5.9e-06,7.1e-06}},
{64853,{9.9e-06,6.2e-06,7.6e-06}},
{64854,{8.3e-06,6.8e-06,4.8e-06}},
{64855,{1.2e-05,9.8e-06,7.4e-06}},
{64856,{1.3e-05,1.1e-05,6.8e-06}},
{64857,{7.9e-07,7.6e-07,4.7e-07}},
{64941,{0.00078,0.0021,1.1e-06}},
{64942,{0.00061,0.0015,1.2e-06}},
{64943,{0.00043,0.00088,1.3e-06}},
{64944,{0.0003,0.00053,1.4e-06}},
{64945,{0.00021,0.00032,1.6e-06}},
{64946,{0.00014,0.0002,1.9e-06}},
{64947,{9.9e-05,0.00012,2.2e-06}},
{64948,{6.7e-05,7.3e-05,2.7e-06}},
{64949,{4.6e-05,4.5e-05,3.2e-06}},
{64950,{3.2e-05,2.7e-05,3.9e-06}},
{64951,{2.3e-05,1.7e-05,5e-06}},
{64952,{1.6e-05,1.2e-05,5e-06}},
{64953,{8.4e-06,6.6e-06,4.5e-06}},
{64954,{7.6e-06,5.6e-06,4.7e-06}},
{64955,{8.6e-06,7.3e-06,4.8e-06}},
{64956,{1e-05,9e-06,6.3e-06}},
{64957,{5.4e-06,4.1e-06,3.7e-06}},
{65041,{0.0011,0.0024,3.9e-07}},
{65042,{0.00087,0.0017,4.3e-07}},
{65043,{0.0006,0.001,4.8e-07}},
{65044,{0.00042,0.00062,5.5e-07}},
{65045,{0.00029,0.00038,6.8e-07}},
{65046,{0.0002,0.00023,8.7e-07}},
{65047,{0.00014,0.00014,1.2e-06}},
{65048,{9.6e-05,9e-05,1.6e-06}},
{65049,{6.6e-05,5.6e-05,2.4e-06}},
{65050,{4.6e-05,3.5e-05,3.7e-06}},
{65051,{3.3e-05,2.2e-05,5.1e-06}},
{65052,{2.4e-05,1.4e-05,6.1e-06}},
{65053,{1.8e-05,1.3e-05,6.2e-06}},
{65054,{1e-05,6.5e-06,5.6e-06}},
{65055,{1.1e-05,8.1e-06,6.9e-06}},
{65056,{1.1e-05,9.1e-06,6.2e-06}},
{65057,{8.1e-06,6.6e-06,5.6e-06}},
{65141,{0.0015,0.0028,6.5e-08}},
{65142,{0.0012,0.002,7.3e-08}},
{65143,{0.00084,0.0012,8.7e-08}},
{65144,{0.00059,0.00074,1.1e-07}},
{65145,{0.0004,0.00045,1.4e-07}},
{65146,{0.00028,0.00028,2e-07}},
{65147,{0.00019,0.00018,3e-07}},
{65148,{0.00013,0.00011,4.9e-07}},
{65149,{9e-05,7.2e-05,9.2e-07}},
{65150,{6.1e-05,4.5e-05,1.8e-06}},
{65151,{4.2e-05,2.8e-05,3.6e-06}},
{65152,{2.9e-05,1.7e-05,6e-06}},
{65153,{2.1e-05,1.3e-05,6.2e-06}},
{65154,{1.6e-05,1.3e-05,5.4e-06}},
{65155,{1.2e-05,8.4e-06,8.1e-06}},
{65156,{1.1e-05,9.2e-06,8.1e-06}},
{65157,{1.1e-05,8.7e-06,6.8e-06}},
{65241,{0.0021,0.0033,3.8e-09}},
{65242,{0.0017,0.0024,4.5e-09}},
{65243,{0.0012,0.0014,5.5e-09}},
{65244,{0.00081,0.0009,7.2e-09}},
{65245,{0.00056,0.00056,1.1e-08}},
{65246,{0.00038,0.00035,1.6e-08}},
{65247,{0.00026,0.00023,2.8e-08}},
{65248,{0.00018,0.00014,5.6e-08}},
{65249,{0.00012,9.1e-05,1.2e-07}},
{65250,{8.1e-05,5.9e-05,3.2e-07}},
{65251,{5.4e-05,3.8e-05,8.5e-07}},
{65252,{3.5e-05,2.4e-05,2.5e-06}},
{65253,{2.2e-05,1.4e-05,4.9e-06}},
{65254,{1.6e-05,1.2e-05,5e-06}},
{65255,{1.1e-05,8.3e-06,8e-06}},
{65256,{1.1e-05,8.3e-06,8.1e-06}},
{65257,{1e-05,8.4e-06,6.8e-06}},
{65341,{0.003,0.004,4.9e-11}},
{65342,{0.0024,0.0029,6.2e-11}},
{65343,{0.0016,0.0018,8e-11}},
{65344,{0.0011,0.0011,1.2e-10}},
{65345,{0.00078,0.00071,1.8e-10}},
{65346,{0.00054,0.00045,3.3e-10}},
{65347,{0.00037,0.00029,6.5e-10}},
{65348,{0.00026,0.00019,1.5e-09}},
{65349,{0.00017,0.00012,4.5e-09}},
{65350,{0.00012,7.9e-05,1.5e-08}},
{65351,{7.7e-05,5.1e-05,5.9e-08}},
{65352,{4.9e-05,3.2e-05,2.5e-07}},
{65353,{2.9e-05,2e-05,1.1e-06}},
{65354,{1.7e-05,1.2e-05,2.3e-06}},
{65355,{9.5e-06,8.2e-06,4.6e-06}},
{65356,{6.9e-06,5.1e-06,6.3e-06}},
{65357,{7.2e-06,5.4e-06,5.4e-06}},
{65358,{6.7e-06,5.3e-06,4.7e-06}},
{65441,{0.0037,0.0045,7.8e-14}},
{65442,{0.0029,0.0033,1.1e-13}},
{65443,{0.002,0.0021,1.5e-13}},
{65444,{0.0014,0.0013,2.4e-13}},
{65445,{0.00099,0.00083,4.2e-13}},
{65446,{0.00069,0.00053,8.8e-13}},
{65447,{0.00048,0.00034,2.3e-12}},
{65448,{0.00033,0.00022,6.9e-12}},
{65449,{0.00023,0.00015,2.4e-11}},
{65450,{0.00015,9.7e-05,1.3e-10}},
{65451,{0.0001,6.3e-05,7.7e-10}},
{65452,{6.7e-05,4.1e-05,5.8e-09}},
{65453,{4.2e-05,2.6e-05,4.9e-08}},
{65454,{2.4e-05,1.6e-05,3.5e-07}},
{65455,{1.3e-05,8.9e-06,8.7e-07}},
{65456,{6.3e-06,4.5e-06,3.7e-06}},
{65457,{7.2e-06,5.4e-06,4.5e-06}},
{65458,{7.1e-06,5.4e-06,4.6e-06}},
{72356,{7e-12,7e-12,7e-12}},
{72357,{7e-12,7e-12,7e-12}},
{72358,{7e-12,7e-12,7e-12}},
{72359,{7e-12,7e-12,7e-12}},
{72360,{7e-12,7e-12,7e-12}},
{72456,{9.9e-12,9.8e-12,9.9e-12}},
{72457,{9.9e-12,9.9e-12,9.9e-12}},
{72458,{9.9e-12,9.9e-12,9.9e-12}},
{72459,{9.9e-12,9.9e-12,9.9e-12}},
{72460,{9.9e-12,9.8e-12,9.9e-12}},
{72556,{1.4e-11,1.4e-11,1.4e-11}},
{72557,{1.4e-11,1.4e-11,1.4e-11}},
{72558,{1.4e-11,1.4e-11,1.4e-11}},
{72559,{1.4e-11,1.4e-11,1.4e-11}},
{72560,{1.4e-11,1.4e-11,1.4e-11}},
{72656,{2e-11,2e-11,2e-11}},
{72657,{2e-11,2e-11,2e-11}},
{72658,{2e-11,2e-11,2e-11}},
{72659,{2e-11,2e-11,2e-11}},
{72660,{2e-11,2e-11,2e-11}},
{72756,{2.8e-11,2.8e-11,2.8e-11}},
{72757,{2.8e-11,2.8e-11,2.8e-11}},
{72758,{2.8e-11,2.8e-11,2.8e-11}},
{72759,{2.8e-11,2.8e-11,2.8e-11}},
{72760,{2.8e-11,2.8e-11,2.8e-11}},
{72856,{3.9e-11,3.9e-11,4e-11}},
{72857,{4e-11,3.9e-11,4e-11}},
{72858,{4e-11,4e-11,4e-11}},
{72859,{4e-11,3.9e-11,4e-11}},
{72860,{4e-11,4e-11,4e-11}},
{72956,{5.6e-11,5.6e-11,5.6e-11}},
{72957,{5.6e-11,5.6e-11,5.6e-11}},
{72958,{5.6e-11,5.6e-11,5.6e-11}},
{72959,{5.6e-11,5.6e-11,5.6e-11}},
{72960,{5.6e-11,5.6e-11,5.6e-11}},
{73056,{7.9e-11,7.9e-11,7.9e-11}},
{73057,{7.9e-11,7.9e-11,7.9e-11}},
{73058,{7.9e-11,7.9e-11,7.9e-11}},
{73059,{7.9e-11,7.9e-11,7.9e-11}},
{73060,{7.9e-11,7.9e-11,7.9e-11}},
{73156,{1.1e-10,1.1e-10,1.1e-10}},
{73157,{1.1e-10,1.1e-10,1.1e-10}},
{73158,{1.1e-10,1.1e-10,1.1e-10}},
{73159,{1.1e-10,1.1e-10,1.1e-10}},
{73160,{1.1e-10,1.1e-10,1.1e-10}},
{73256,{1.6e-10,1.6e-10,1.6e-10}},
{73257,{1.6e-10,1.6e-10,1.6e-10}},
{73258,{1.6e-10,1.6e-10,1.6e-10}},
{73259,{1.6e-10,1.6e-10,1.6e-10}},
{73260,{1.6e-10,1.6e-10,1.6e-10}},
{73356,{2.2e-10,2.2e-10,2.2e-10}},
{73357,{2.2e-10,2.2e-10,2.2e-10}},
{73358,{2.2e-10,2.2e-10,2.2e-10}},
{73359,{2.2e-10,2.2e-10,2.2e-10}},
{73360,{2.2e-10,2.2e-10,2.2e-10}},
{73456,{3.2e-10,3.2e-10,3.2e-10}},
{73457,{3.2e-10,3.2e-10,3.2e-10}},
{73458,{3.2e-10,3.1e-10,3.2e-10}},
{73459,{3.2e-10,3.2e-10,3.2e-10}},
{73460,{3.2e-10,3.2e-10,3.2e-10}},
{73556,{4.5e-10,4.5e-10,4.5e-10}},
{73557,{4.5e-10,4.5e-10,4.5e-10}},
{73558,{4.5e-10,4.5e-10,4.5e-10}},
{73559,{4.5e-10,4.5e-10,4.5e-10}},
{73560,{4.5e-10,4.4e-10,4.5e-10}},
{73656,{6.3e-10,6.3e-10,6.3e-10}},
{73657,{6.3e-10,6.3e-10,6.3e-10}},
{73658,{6.3e-10,6.3e-10,6.3e-10}},
{73659,{6.3e-10,6.3e-10,6.3e-10}},
{73660,{6.3e-10,6.3e-10,6.3e-10}},
{73756,{8.9e-10,8.9e-10,9e-10}},
{73757,{9e-10,8.9e-10,9e-10}},
{73758,{9e-10,8.9e-10,9e-10}},
{73759,{9e-10,8.9e-10,8.9e-10}},
{73760,{8.9e-10,8.9e-10,9e-10}},
{73856,{1.3e-09,1.3e-09,1.3e-09}},
{73857,{1.3e-09,1.3e-09,1.3e-09}},
{73858,{1.3e-09,1.3e-09,1.3e-09}},
{73859,{1.3e-09,1.3e-09,1.3e-09}},
{73860,{1.3e-09,1.3e-09,1.3e-09}},
{73956,{1.8e-09,1.8e-09,1.8e-09}},
{73957,{1.8e-09,1.8e-09,1.8e-09}},
{73958,{1.8e-09,1.8e-09,1.8e-09}},
{73959,{1.8e-09,1.8e-09,1.8e-09}},
{73960,{1.8e-09,1.8e-09,1.8e-09}},
{74056,{2.5e-09,2.5e-09,2.5e-09}},
{74057,{2.5e-09,2.5e-09,2.5e-09}},
{74058,{2.5e-09,2.5e-09,2.5e-09}},
{74059,{2.5e-09,2.5e-09,2.5e-09}},
{74060,{2.5e-09,2.5e-09,2.5e-09}},
{74156,{3.6e-09,3.5e-09,3.6e-09}},
{74157,{3.6e-09,3.6e-09,3.6e-09}},
{74158,{3.6e-09,3.6e-09,3.6e-09}},
{74159,{3.6e-09,3.6e-09,3.6e-09}},
{74160,{3.6e-09,3.6e-09,3.6e-09}},
{74256,{5e-09,5e-09,5e-09}},
{74257,{5e-09,5e-09,5e-09}},
{74258,{5e-09,5e-09,5e-09}},
{74259,{5e-09,5e-09,5e-09}},
{74260,{5e-09,5e-09,5e-09}},
{74356,{7.1e-09,6.8e-09,7.1e-09}},
{74357,{7.1e-09,7.1e-09,7.1e-09}},
{74358,{7.1e-09,7.1e-09,7.1e-09}},
{74359,{7.1e-09,7.1e-09,7.1e-09}},
{74360,{7.1e-09,7.1e-09,7.1e-09}},
{74456,{9.8e-09,8.9e-09,9.9e-09}},
{74457,{9.9e-09,9.9e-09,9.9e-09}},
{74458,{9.9e-09,9.9e-09,9.9e-09}},
{74459,{9.9e-09,9.9e-09,9.9e-09}},
{74460,{9.9e-09,9.9e-09,9.9e-09}},
{74556,{1.4e-08,1.2e-08,1.4e-08}},
{74557,{1.4e-08,1.4e-08,1.4e-08}},
{74558,{1.4e-08,1.4e-08,1.4e-08}},
{74559,{1.4e-08,1.4e-08,1.4e-08}},
{74560,{1.4e-08,1.4e-08,1.4e-08}},
{74656,{1.8e-08,1.8e-08,1.8e-08}},
{74657,{1.9e-08,1.8e-08,1.9e-08}},
{74658,{1.9e-08,1.8e-08,1.9e-08}},
{74659,{1.9e-08,1.8e-08,1.9e-08}},
{74660,{1.9e-08,1.8e-08,1.9e-08}},
{74756,{2.4e-08,2.4e-08,2.4e-08}},
{74757,{2.4e-08,2.4e-08,2.4e-08}},
{74758,{2.4e-08,2.4e-08,2.4e-08}},
{74759,{2.4e-08,2.4e-08,2.4e-08}},
{74760,{2.4e-08,2.4e-08,2.4e-08}},
{74856,{2.7e-08,2.5e-08,2.7e-08}},
{74857,{2.8e-08,2.8e-08,2.8e-08}},
{74858,{2.8e-08,2.8e-08,2.8e-08}},
{74859,{2.8e-08,2.8e-08,2.8e-08}},
{74860,{2.8e-08,2.8e-08,2.8e-08}},
{74957,{2.9e-08,2.9e-08,2.9e-08}},
{74958,{2.9e-08,2.9e-08,2.9e-08}},
{74959,{2.9e-08,2.9e-08,2.9e-08}},
{74960,{2.9e-08,2.9e-08,2.9e-08}},
{75057,{2.7e-08,2.7e-08,2.7e-08}},
{75058,{2.7e-08,2.7e-08,2.7e-08}},
{75059,{2.7e-08,2.7e-08,2.7e-08}},
{75060,{2.7e-08,2.7e-08,2.7e-08}},
{75157,{1.6e-08,1.6e-08,1.6e-08}},
{75158,{1.6e-08,1.6e-08,1.6e-08}},
{75159,{1.6e-08,1.6e-08,1.6e-08}},
{75160,{1.6e-08,1.6e-08,1.6e-08}},
{75257,{7.8e-09,7.6e-09,7.8e-09}},
{75258,{7.8e-09,7.8e-09,7.8e-09}},
{75259,{7.8e-09,7.8e-09,7.8e-09}},
{75260,{7.8e-09,7.8e-09,7.8e-09}},
{75357,{7.6e-09,6.5e-09,7.5e-09}},
{75358,{7.7e-09,7.6e-09,7.7e-09}},
{75359,{7.7e-09,7.7e-09,7.7e-09}},
{75360,{7.7e-09,7.7e-09,7.7e-09}},
{75458,{2.4e-09,2.3e-09,2.4e-09}},
{75459,{2.4e-09,2.3e-09,2.4e-09}},
{75460,{2.4e-09,2.3e-09,2.4e-09}},
}; }
