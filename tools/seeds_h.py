"""seeds: C23"""
SEEDS = {}
MPRE = """addpath([getenv('ROOT') '/_build/interfaces/mex']);
function bad(m)
  printf('BROKEN: %s\\n', m);
  exit(1);
end
"""
SEEDS['b23-past-the-end'] = dict(property='C23', oct=1, needs='a sample index exactly one past the last pixel',
  what='the index check of l1qc_dct compares against the pixel count after the shift to 0-based indices: one index outside the image is accepted and no error is raised',
  edits=[('interfaces/mex/l1qc_dct_mex.c', """    idx = ((l1c_int)pix_idx_double[i]) - 1;
    if (idx < 0 || idx > mtot - 1) {
""", """    idx = ((l1c_int)pix_idx_double[i]) - 1;
    if (idx < 0 || idx > mtot) {
""")],
  demo=MPRE + """o = l1qc_dct_opts('verbose', 0);
raised = 0;
try
  [x, r] = l1qc_dct(4, 5, ones(4, 1), [2; 7; 11; 21], o);
catch e
  raised = 1;
end
if !raised, bad('index 21 of a 20-pixel image is accepted'); end
raised = 0;
try
  [x, r] = l1qc_dct(4, 5, [1; -1; 2; .5], [2; 7; 11; 20], o);
catch e
  raised = 1;
end
if raised, bad('the last pixel is rejected'); end
""")
SEEDS['b23-error-in-loop'] = dict(property='C23', oct=1, needs='a call rejected for a bad sample index, after the work buffers were allocated',
  what='the error is raised from inside the conversion loop, which does not return: the image buffer and the index buffer are never released',
  edits=[('interfaces/mex/l1qc_dct_mex.c', """    if (idx < 0 || idx > mtot - 1) {
      status = L1C_INVALID_ARGUMENT;
      goto exit;
    }
""", """    if (idx < 0 || idx > mtot - 1) {
      mexErrMsgIdAndTxt("l1c:l1qc_dct:bad_index",
                        "pix_idx contained an invalid value (%d).",
                        idx + 1);
    }
""")],
  demo=MPRE + """o = l1qc_dct_opts('verbose', 0);
function k = vm()
  t = strsplit(strtrim(fileread('/proc/self/statm')), ' ');
  k = str2double(t{1});
end
for i = 1:300
  if i == 100, k0 = vm(); end
  raised = 0;
  try
    [x, r] = l1qc_dct(1000, 1000, ones(4, 1), [2; 7; 11; 0], o);
  catch e
    raised = 1;
  end
  if !raised, bad('index 0 is accepted'); end
end
if vm() - k0 > 100000, bad('memory grows with every rejected call'); end
""")
SEEDS['b23-prefix-mode'] = dict(property='C23', oct=1, needs='an option bp_mode that is a misspelling with the right beginning (e.g. synth or analyze)',
  what='the bp_mode option is compared by prefix, so misspelt modes no longer raise an error',
  edits=[('interfaces/mex/nesta_dctTV_mex.c', """  if (strncmp(mode, "synthesis", 10) == 0) {
    bp_mode = synthesis;
  } else if (strncmp(mode, "analysis", 10) == 0) {
""", """  if (strncmp(mode, "synthesis", 5) == 0) {
    bp_mode = synthesis;
  } else if (strncmp(mode, "analysis", 5) == 0) {
""")],
  demo=MPRE + """o = nesta_opts('verbose', 0);
for t = {'synth', 'synthesys', 'analytic'}
  o.bp_mode = t{1};
  raised = 0;
  try
    [x, r] = nesta_dctTV(4, 5, [1; -1; 2; .5], [2; 7; 11; 20], o);
  catch e
    raised = 1;
  end
  if !raised, bad(['bp_mode ' t{1} ' is accepted']); end
end
for t = {'synthesis', 'analysis'}
  o.bp_mode = t{1};
  [x, r] = nesta_dctTV(4, 5, [1; -1; 2; .5], [2; 7; 11; 20], o);
  if !isequal(size(x), [4 5]), bad('size'); end
end
""")
