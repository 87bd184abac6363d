import json,subprocess
prop={'9d3ebe5':'C32','aee70f4':'C32','82828ae':'C13','2553c5f':'C20','4b64a03':'C29','a6e3d7a':'C29','7e352c7':'C29','57b93b4':'C02','1eea810':'C02','dc31b39':'C03','c2b7652':'C03','ee7366d':'C05','76e7a67':'C09','499dce5':'C09','84e1b44':'C10','0d9f40e':'C10','978b13a':'C10','8d25301':'C11','46c7ade':'C11','ae33148':'C13','2c85a10':'C13','08b2d0f':'C14','d62364b':'C14','bb27655':'C14','09f47be':'C14','92304e0':'C14','c624481':'C15','2975e61':'C19','52d9cae':'C19','b313202':'C19','fc80bcc':'C20','e28bdaf':'C20','e43ee40':'C20','f2d93b4':'C20','5c9f020':'C22','9da1efe':'C29','11fa77d':'C26'}
what={
'9d3ebe5':'comparing (==, approximately_equal) distributions, regression fits, covariance representations or factorisations of different sizes aborted instead of telling them apart',
'aee70f4':'a null model shadowed its own parameter store, so parameters given to it were lost',
'82828ae':'the generic tuner permuted more than ten values given as a vector (their names sorted as text)',
'2553c5f':'comparing an initialised factorisation with one which is not aborted',
'4b64a03':'printing a JointDistribution wrote to std::cout instead of the given stream',
'a6e3d7a':'CSV rows and headers were lost on streams which cannot seek, and for rows without columns',
'7e352c7':"a CSV of several datasets held only the first dataset's columns",
'57b93b4':'update() built the Schur complement factorisation from a dangling block expression (wrong/aborting predictions after an update)',
'1eea810':'update() ignored the measurement noise of the new targets',
'dc31b39':'differential_entropy scaled the log determinant by the dimension',
'c2b7652':'GP log likelihood ignored the variances of the targets',
'ee7366d':'cross_validate().predict(..).joints did not return a map when a map was asked for',
'76e7a67':'block_accumulate/block_product did not compile in C++17',
'499dce5':'block diagonal solves refused sparse right hand sides',
'84e1b44':'sparse GP fit ignored the mean function',
'0d9f40e':'rebasing a sparse GP onto new inducing points ignored the mean function',
'978b13a':'set_inducing_point_strategy stored nothing',
'8d25301':'comparison of two RANSAC outputs compared one output with itself',
'46c7ade':'GP RANSAC functions kept dangling references to their metrics',
'ae33148':'finite difference gradient stepped out of bounds at the upper bound',
'2c85a10':'a single greedy query returned the logarithm of the step ratio',
'08b2d0f':"Gaussian prior's log density multiplied its terms",
'd62364b':'positive Gaussian prior was not normalised',
'bb27655':'log normal prior did not halve the squared deviation; finite off its support',
'09f47be':'uniform priors compared equal when their rounded names were equal',
'92304e0':'log normal prior unbounded',
'c624481':'free set_subset did not compile for distributions',
'2975e61':'energy score draws not rotated back by the pivoting of the factorisation',
'52d9cae':'energy score weights differed between its two terms',
'b313202':'variogram score used transposed covariance/weights (abort in debug builds)',
'fc80bcc':'sparse matrix serialisation lost half the bytes / transposed entries',
'e28bdaf':'serialised sparse GP fit lost its numerical rank; saving overwrote it',
'e43ee40':'serialising an uninitialised factorisation failed',
'f2d93b4':'norm and status of factorisations were not restored',
'5c9f020':'spanning tree of a graph used a loop edge at its first vertex',
'11fa77d':'incomplete_gamma was NaN at infinity for shapes below 10',
'9da1efe':'printing a graph wrote to std::cout instead of the given stream',
}
log=subprocess.run(['git','-C','/repo','log','--format=%h','1dd32b0..HEAD'],capture_output=True,text=True).stdout.split()
assert set(log)==set(prop),(set(log)^set(prop))
f=[f"fixed: property={prop[h]} {h} {what[h]}" for h in reversed(log)]
json.dump({"findings":[],"fixed":f},open('/verif/known_findings.json','w'),indent=1)
