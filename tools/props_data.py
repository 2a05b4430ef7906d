p("C01", "Windowing returns exactly the addressed samples",
  "Unfolding a timeseries into overlapping windows yields, for every window w and offset k, exactly the sample at w*stride+k of every batch element and channel, as many windows as fit, and (when asked) exactly the unread tail as remainder. Slicing kernels at given start indices yields exactly the samples start..start+size-1 of the addressed batch element and channel, and index tensors whose rank or size does not match the data are refused with an error. Inputs are never modified.",
  ["inputs", "configurations"], "all data lengths, channel and batch counts, window sizes, strides and in-range start indices, ranks 1 to 3",
  "Tests try a few sizes; the window/remainder arithmetic must be right for every size/stride/length combination.",
  ["utils/slicing.py"], [("unfold_windows", "utils/slicing.py:unfold_windows"), ("slice_kernels", "utils/slicing.py:slice_kernels")],
  "All sizes, strides and indices symbolic; no bound.")

p("C02", "Random windows come from exactly the documented range of start samples",
  "Sampling kernels at random draws the start of every window uniformly from all starts before the last one at which a full kernel fits (or, with a maximum centre offset, from the documented range about the centre), one start per window when coincident and an independent one per window and channel otherwise. Returned kernels are contiguous stretches of their source at those starts, and returned indices are those starts. Requests whose range would leave the data, of too-short data, or with inconsistent counts are refused with a ValueError.",
  ["inputs", "configurations"], "all data lengths, kernel sizes, offsets, counts, and all possible random draws",
  "A test samples a handful of random draws; the range must be right for every draw and every size combination.",
  ["utils/slicing.py"], [("sample_kernels", "utils/slicing.py:sample_kernels"), ("slice_kernels", "utils/slicing.py:slice_kernels")],
  "Random draws are free symbolic values constrained only by the range passed to the generator; that every start really occurs is an additional bounded concrete check. As the library's tests fix it, the range excludes the very last start and a kernel as long as the data is refused.")

p("C03", "The in-memory dataset iterates exactly the documented windows",
  "Iterating an in-memory dataset yields, in order, batches whose j-th element of batch i is the window starting at stride times the (i*batch+j)-th window index - in order, or in a random permutation of all windows when shuffled - with the same samples taken from the targets. When channels are not coincident, shuffled windows draw each channel's start independently from all windows and ordered windows enumerate combinations with the last channel varying fastest. The number of batches equals the reported length, and inconsistent requests are refused at construction.",
  ["inputs", "configurations"], "all dataset lengths, channel counts, kernel sizes, strides, batch sizes, and all permutations",
  "Exact indices matter for datasets far longer (beyond 2**24 samples) and for more size combinations than tests can hold.",
  ["dataloading/in_memory_dataset.py"], [("windows and permutation", "dataloading/in_memory_dataset.py:InMemoryDataset.__iter__"), ("length", "dataloading/in_memory_dataset.py:InMemoryDataset.__len__"), ("construction checks", "dataloading/in_memory_dataset.py:InMemoryDataset.__init__")],
  "Sizes symbolic, channel counts of the non-coincident ordered mode enumerated 1..3; permutations are arbitrary symbolic permutations. Defect found and fixed: window indices computed in float32 (commit fcb5162).")

p("C04", "Chunked sampling reads only the current chunk, whatever its size",
  "Iterating over chunks of data yields, for every chunk, the requested number of batches, each element being contiguous windows of that very chunk at starts drawn from all positions that fit in it before the last, the same start in all channels when coincident and independent ones otherwise. Chunks may change size along the iteration: every draw uses the size of the chunk it reads. A chunk shorter than the window is refused rather than read across a boundary.",
  ["inputs", "histories"], "all sequences of chunk sizes, kernel sizes, batch sizes, batches per chunk, and all random draws",
  "Tests use chunks of one size; a stale size only shows when later chunks differ.",
  ["dataloading/chunked_dataset.py"], [("chunk iteration", "dataloading/chunked_dataset.py:ChunkedTimeSeriesDataset.__iter__")],
  "Chunk sizes, batches per chunk symbolic; the number of chunks enumerated. Defect found and fixed: stale chunk size (commit 73a4df6).")

p("C05", "HDF5 sampling reads addressed samples and workers share an epoch exactly",
  "Every row of a batch sampled from HDF5 files is a contiguous stretch of one file's own channel, read at the same file and start in all channels when coincident, from the same file when coincident by files, and independently otherwise; files are drawn in proportion to their length. The main process yields exactly the configured number of batches per epoch, and worker w of W yields floor(P/W) batches plus one when w < P mod W, so that all workers together yield exactly the epoch.",
  ["inputs", "configurations", "schedules"], "all epoch lengths and worker counts; all file lengths, kernel and batch sizes",
  "Worker splitting has to be exact for every (epoch, workers, rank) triple; tests try none with uneven remainders.",
  ["dataloading/hdf5_dataset.py"], [("worker split", "dataloading/hdf5_dataset.py:Hdf5TimeSeriesDataset.__iter__"), ("reading windows", "dataloading/hdf5_dataset.py:Hdf5TimeSeriesDataset.sample_batch")],
  "The epoch partition and its induction over workers are proved; sample_batch (h5py and numpy I/O, outside the verifier's reach) is checked concretely on generated files: bounded, not counted as proved.")

p("C06", "Streaming snapshots equal windows of the concatenated stream",
  "Feeding a stream in successive updates and threading the returned state yields, for every update, exactly the overlapping snapshot windows (ending one stride apart) of the stream formed by the initial zeros followed by all updates so far. The returned state is the end of that stream, needed by the next update, and neither the update nor the given state is modified. With channel groups, each group's snapshots hold exactly its own channels.",
  ["histories", "inputs", "configurations"], "all histories of updates, all snapshot sizes, strides, batch sizes, channel groups",
  "The guarantee is about unbounded histories of updates; tests run a short one at one size.",
  ["nn/streaming/snapshotter.py"], [("state update", "nn/streaming/snapshotter.py:Snapshotter.forward"), ("initial state", "nn/streaming/snapshotter.py:Snapshotter.get_initial_state")],
  "Proved by induction over updates (base, step from any state), all sizes symbolic; the number of channel groups enumerated 1..3.")

p("C07", "Online averaging returns the mean of the predictions covering each step",
  "Threading the state through successive updates, every returned time step is the sum of the predictions covering it (from all updates so far, aligned by their update offset) divided by the configured number of updates, each prediction read ending the configured offset before the end of its kernel (none or zero meaning the very end). The new state is the partial sums of the steps after the batch, and neither the update nor the given state is modified.",
  ["histories", "inputs", "configurations"], "all histories of updates, update sizes, channel counts, offsets and values",
  "Tests compare one short history; the recurrence has to hold from any reachable state.",
  ["nn/streaming/online_average.py"], [("averaging step", "nn/streaming/online_average.py:OnlineAverager.forward"), ("weights and indices", "nn/streaming/online_average.py:OnlineAverager.__init__")],
  "Step (induction) contract proved for all update sizes, channels, offsets and values; batch size and number of updates enumerated over seven pairs for the values, symbolic for the shapes. Defect found and fixed: offset zero (commit 79424f0).")

p("C08", "Decimation keeps exactly the scheduled samples",
  "Decimating a timeseries by a schedule of segments (start, end, target rate) keeps, for every segment, exactly the samples start, start+M, start+2M, ... before its end, with M the sample rate divided by the target rate and times counted from the start of the schedule; the segments are returned joined in schedule order, or as a list of segments when asked, with every batch element and channel treated alike and the input not modified. An input that does not span the schedule, segments that end before they start, target rates that do not divide the sample rate, overlapping segments (when joined) and malformed schedules are refused with a ValueError.",
  ["inputs", "configurations"], "all schedules of up to three segments with whole or eighth-of-a-second times, all sample rates and rates dividing them, all data",
  "Tests use one schedule; phase errors of a segment show only for start times that are no multiple of its own step, or for schedules not starting at zero.",
  ["transforms/decimator.py"], [("index construction", "transforms/decimator.py:Decimator.build_variable_indices"), ("validation", "transforms/decimator.py:Decimator._validate_inputs"), ("decimation", "transforms/decimator.py:Decimator.forward")],
  "Number of segments enumerated 1..3; rates, times (integers, eighths) and lengths symbolic. Two defects found and fixed (segment phase; schedules not starting at zero).")

p("C09", "Integrators: windowed mean and leaky accumulation",
  "The top-hat integrator returns at every step the mean over its window of the current and preceding samples (samples before the start counting as zero). The leaky integrator starts at zero bounded below, adds at each step the increment (one, or the score) where the input reaches the threshold and subtracts the decay elsewhere, never falling below its lower bound. Both treat every leading (batch, channel) index independently, do not modify the input, and an unknown integration mode is refused with a ValueError.",
  ["inputs", "histories"], "all series lengths, values, window sizes, thresholds, decays and bounds, 1 to 3 dimensional inputs",
  "The leaky integrator is a recurrence over arbitrarily long series; tests run short ones with a zero bound.",
  ["transforms/integrator.py"], [("top-hat", "transforms/integrator.py:TophatIntegrator.forward"), ("leaky recurrence (loop invariant)", "transforms/integrator.py:LeakyIntegrator.forward")],
  "Loop handled by an inductive recurrence contract: no bound on the series length. Defect found and fixed: a positive lower bound.")

p("C10", "Waveforms are projected onto interferometers as the detector geometry demands",
  "Antenna responses are the double contraction of each polarization tensor (plus, cross, breathing, in the order of the requested mode names) with each interferometer's detector tensor: plus and cross mix as a spin-2 quantity under rotation of the polarization angle, breathing is invariant, and nothing is received along the propagation direction. Each interferometer's response is delayed by the light travel time of the wave from the geocentre to its vertex, in whole samples. The observed strain is the sum over polarizations, matched by name and measured with declination from the equator, of antenna response times polarization, then delayed; unknown polarizations are refused; the geometry of each named interferometer (H1, L1, V1, K1, ...) is its published detector tensor and vertex. Inputs are not modified.",
  ["inputs", "configurations"], "all sky positions, polarization angles, detector tensors, vertices, sample rates, batch sizes, series and polarization orders",
  "Tests compare a few sky positions with another package to a tolerance; sign, order and delay errors can hide where those agree.",
  ["gw.py"], [("antenna responses", "gw.py:compute_antenna_responses"), ("delays", "gw.py:shift_responses"), ("strain", "gw.py:compute_observed_strain"), ("geometry", "gw.py:get_ifo_geometry")],
  "Real arithmetic; trigonometric identities by exact normalisation. Detector geometry is recomputed in the contract from the published site coordinates and arm azimuths (to 1 m and 1e-5).")

p("C11", "Signal-to-noise ratios and rescaling to a target SNR",
  "The squared SNR of a response in one interferometer is four times the frequency resolution times the sum, over the frequency bins of the pass band (highpass inclusive, lowpass exclusive, given as a frequency or as a mask), of the squared magnitude of its discrete Fourier transform divided by the sample rate, over the power spectral density (shared, per channel or per element; linearly interpolated along frequency when its length differs). The network SNR is the root of the sum of squared interferometer SNRs. Reweighting scales each waveform by one common factor so that its network SNR becomes the target; the fitted rescaler does so for given targets or for a random permutation of the batch's own SNRs, which it returns. Masks of the wrong length are refused with a ValueError and no argument is modified.",
  ["inputs", "configurations"], "all responses, densities, sample rates, lengths, pass bands, targets",
  "Tests check a few configurations numerically; factor and mask errors can cancel for the particular PSDs and targets used.",
  ["gw.py", "transforms/snr_rescaler.py"], [("interferometer SNR", "gw.py:compute_ifo_snr"), ("network SNR", "gw.py:compute_network_snr"), ("reweighting", "gw.py:reweight_snrs"), ("rescaler", "transforms/snr_rescaler.py:SnrRescaler.forward")],
  "The discrete Fourier transform and linear interpolation are uninterpreted linear functionals; float rounding of bin frequencies is not modelled.")

p("C12", "Welch estimates of power and cross spectral densities",
  "The estimated density is the average over all segments of the given length and stride that fit in the series: each segment has its mean removed (in the fast variant the mean of the whole series is removed once), is windowed, transformed, and multiplied with its conjugate (a cross density is conj(X)*Y, the second series being shared by all channels when it has one dimension less); bins other than the zero frequency and, for even segment lengths, the Nyquist frequency are doubled; the result is scaled by the given factor. The average is the mean, or the median divided by its bias (real and imaginary parts separately for cross densities). The spectral density module does so with segments of fftlength seconds overlapping by the requested overlap (default half), a Hann or given window, and the scale 1/(sample rate * sum of squared window). Too short series, more than three dimensions, shapes that do not pair, and inconsistent arguments are refused with an error; inputs are not modified.",
  ["inputs", "configurations"], "all series, lengths, segment lengths, strides, windows, scales, 1 to 3 dimensions, mean and median",
  "Tests compare with scipy for a few configurations to a tolerance; unused tails, odd lengths, edge bins and median bias for other segment counts are not reached.",
  ["spectral.py", "transforms/spectral.py"], [("fast estimate", "spectral.py:fast_spectral_density"), ("full estimate", "spectral.py:spectral_density"), ("median", "spectral.py:median"), ("module", "transforms/spectral.py:SpectralDensity.forward")],
  "The discrete Fourier transform is an uninterpreted linear functional of the segment; the median of torch is an uninterpreted functional (of the lower median rank); the number of segments is enumerated for the median bias.")

p("C13", "Whitening filters by the inverse root of the truncated density",
  "Truncating an inverse spectrum keeps the bins floor(frequency/df) from highpass (inclusive) to lowpass (exclusive), drops the last bin when the number of bins is odd, tapers the impulse response of the kept inverse amplitude spectrum with the two halves of the window (or of a Hann window of the given duration, in whole pairs of samples) and zeroes it beyond, and returns half the inverse squared magnitude of the result as the density. Whitening removes the mean of every series, divides its spectrum by the root of the truncated density (first linearly resampled along frequency when its number of bins differs, and shared across missing batch or channel dimensions), divides by the root of the sample rate, and cuts exactly half the filter duration from both ends unless told not to. The module does so with a Hann window of its duration; the fitted module whitens channel c with its own fitted background and refuses other kernel lengths. A series not longer than the filter is refused, and no argument is modified.",
  ["inputs", "configurations"], "all series, densities, lengths (even and odd), filter durations and windows, pass bands, ranks",
  "Tests check white noise statistics to a tolerance for a few sizes; off-by-one bins, taper halves, and crops at other parities and durations go unseen.",
  ["spectral.py", "transforms/whitening.py"], [("truncation", "spectral.py:truncate_inverse_power_spectrum"), ("filtering", "spectral.py:normalize_by_psd"), ("whitening", "spectral.py:whiten"), ("module", "transforms/whitening.py:Whiten.forward"), ("fitted module", "transforms/whitening.py:FixedWhiten.forward")],
  "Fourier transforms and linear interpolation are uninterpreted linear functionals; float rounding is not modelled (bin frequencies are kept away from exact bin edges); filter durations under two samples are outside the precondition. A bounded concrete check ties the normalisation to white noise of known variance. Defect found and fixed: fit duration stored in single precision.")

p("C14", "Fitted transforms: refused before fit, faithful to the data they were fitted to",
  "A fittable transform (channel scaler, SNR rescaler, fixed whitener) refuses to be called, with a ValueError, until it has been fitted or has loaded the complete state of a fitted transform; a failed fit or an incomplete state leaves it refusing, and loading a saved state into a fresh transform of the same configuration reproduces the fitted one. The channel scaler maps x to (x - mean_c)/std_c with the mean and population standard deviation (plus the given regularisation) of channel c of the data it was fitted to, and its reverse undoes it; data of another rank or channel count is refused. Spectral transforms accept either a density or a time series, which they turn into its Welch estimate (Hann window of fftlength seconds, density scale 1/(sample rate * sum of squared window), the overlap given, half a segment by default), and keep for channel c the density of the c-th background at the nearest bins of the transform's own number of bins; a number of backgrounds other than the number of channels is refused. No argument is modified.",
  ["inputs", "configurations", "histories"], "all data, numbers of channels up to three, lengths, rates, overlaps, regularisations; histories of fit, save, load and call",
  "Tests fit one transform on one configuration; which channel a background lands in, the overlap default, or a stale 'built' flag do not show there.",
  ["transforms/transform.py", "transforms/scaler.py", "transforms/whitening.py", "transforms/snr_rescaler.py"],
  [("fitting protocol", "transforms/transform.py:FittableTransform"), ("densities", "transforms/transform.py:FittableSpectralTransform.normalize_psd"), ("scaler", "transforms/scaler.py:ChannelWiseScaler.fit"), ("backgrounds", "transforms/snr_rescaler.py:SnrRescaler.fit")],
  "Fourier transforms uninterpreted; number of channels enumerated 1..3. Two defects found and fixed: an overlap of zero replaced by the default, and a transform marked fitted after a failed load.")

p("C25", "Shifted Pearson correlation equals the correlation coefficient at every shift",
  "Entry w (of 2*max_shift+1) of the shifted correlation of x and y is the Pearson correlation coefficient of y with x advanced by w - max_shift samples, samples beyond the ends of x counting as zero, for every leading index of x independently; a y of fewer dimensions is shared along the leading dimensions it lacks. An x of more than three dimensions, a y of more dimensions than x, and sizes that do not match from the last dimension backwards are refused with a ValueError; neither argument is modified.",
  ["inputs", "configurations"], "all series, lengths, shifts, and ranks 1 to 3 of both series",
  "Tests compare a few sizes to scipy; off-by-one shifts or wrong broadcasting for other ranks are not reached.",
  ["transforms/pearson.py", "utils/slicing.py"], [("correlation", "transforms/pearson.py:ShiftedPearsonCorrelation.forward"), ("refusals", "transforms/pearson.py:ShiftedPearsonCorrelation._shape_checks")],
  "All sizes symbolic; real arithmetic; the coefficient of a constant window is left undefined.")

p("C26", "Group normalisation normalises over exactly its group of channels",
  "The one dimensional group norm maps x[b,c,t] to weight_c*(x - m)/sqrt(v + eps) + bias_c, where m and v are the mean and population variance of element b over all samples of the channels in c's group (consecutive channels, in equal groups; one channel per group by default); it does not modify its input. A number of groups that does not divide the channels and inputs that are not three dimensional are refused with a ValueError. The norm layer getters (1D and 2D) build a norm with the requested number of groups, but never more groups than channels, and one group per channel by default.",
  ["inputs", "configurations"], "all inputs, batch sizes, lengths, channel and group counts (symbolic for one group and one channel per group; channels per group symbolic for two and three groups)",
  "Tests compare a few shapes with torch; a wrong grouping or variance only shows at other group counts and means.",
  ["nn/norm.py"], [("normalisation", "nn/norm.py:GroupNorm1D.forward"), ("getters", "nn/norm.py:GroupNorm1DGetter.__call__")],
  "Real arithmetic (the cancellation of E[x^2]-E[x]^2 in floats is not modelled).")

p("C28", "Residual networks are built and evaluated as described",
  "A basic block computes relu(norm2(conv2(relu(norm1(conv1 x)))) + shortcut x) with 3-kernels (or the given odd kernel) padded to keep the size and the stride in its first convolution; a bottleneck block convolves to its width (int(planes*base/64)*groups), convolves with stride, dilation and groups, and expands by a 1-convolution to four times its planes before adding the shortcut. A residual network (one or two dimensional, basic or bottleneck) is a stem (7-convolution to 64 maps by stride 2, norm, relu, 3-max-pool by 2), stages i = 0, 1, ... with the requested number of blocks of 64*2^i planes, global average and a linear head of the requested outputs; every stage after the first starts with a block that halves the size by its stride or (stride type 'dilation', bottleneck only) doubles the dilation of the later blocks; the shortcut is projected (1-convolution with that stride, and norm) exactly where size or channels change. Norms are group norms with one group per channel unless another is given; zero-initialised residuals start every block's last norm at zero. Even kernels, a stride type list of the wrong length, unknown stride types, and groups, width or dilation on basic blocks are refused. Inputs are not modified.",
  ["inputs", "configurations"], "all inputs, weights, sizes; block configurations and network plans enumerated (up to four stages, kernels 1, 3, 5)",
  "Tests check output shapes only; a dropped relu, misplaced stride or dilation, or a missing projection norm changes no shape.",
  ["nn/resnet/resnet_1d.py", "nn/resnet/resnet_2d.py"], [("blocks 1D", "nn/resnet/resnet_1d.py:BasicBlock.forward"), ("bottleneck 1D", "nn/resnet/resnet_1d.py:Bottleneck.forward"), ("construction", "nn/resnet/resnet_1d.py:ResNet1D.__init__"), ("2D", "nn/resnet/resnet_2d.py:ResNet2D.__init__")],
  "Convolutions are exact sums for the enumerated kernels and channels; max pooling is an uninterpreted functional. Defect found and fixed: a single residual stage failed to construct.")

p("C29", "Autoencoders wire encoders, decoders and skip connections level by level",
  "An autoencoder encodes through its blocks in order and decodes in reverse order; with a skip connection, the output of every decoder but the last is combined with the state its level received (the encoding of the next outer level), and a number of states that does not fit, or none although a connection is configured, is refused with a ValueError. Matching sizes centres the data: missing samples are zeros, half of them (rounded down) in front, and surplus samples are cut, half of them (rounded up) in front. The additive connection adds the state to the size-matched data, the concatenating one puts data and state side by side, group by group (the data's group before the state's), refusing channel counts its groups do not divide. A convolutional block encodes by activation(norm(strided grouped convolution)) and decodes by output activation(norm(transposed convolution)); the convolutional autoencoder gives level i channels[i]*groups encoded channels, decodes each level to the channels it was given (the outermost to the requested number), applies the output activation only at the outermost decoder, and returns a series of exactly the input's length. Inputs and states are not modified.",
  ["inputs", "configurations", "histories"], "all inputs, weights, lengths; up to four levels, kernels, strides, groups and connections enumerated",
  "Tests check shapes of few configurations; wrong states, orders or croppings of equal shapes pass them.",
  ["nn/autoencoder"], [("wiring", "nn/autoencoder/base.py:Autoencoder.decode"), ("size matching", "nn/autoencoder/utils.py:match_size"), ("connections", "nn/autoencoder/skip_connection.py:ConcatSkipConnect.forward"), ("blocks", "nn/autoencoder/convolutional.py:ConvBlock"), ("networks", "nn/autoencoder/convolutional.py:ConvolutionalAutoencoder")],
  "Batch norm is modelled in evaluation mode; numbers of levels, kernels and groups enumerated. Five defects found and fixed (see known_findings.json).")

p("C16", "Mass and spin conversions keep the physical geometry",
  "Chirp mass and ratio are converted to the component masses with that ratio (second over first) and that chirp mass. Converting the bilby spin angles yields an inclination and spin components in the frame of the orbital angular momentum L, such that each spin keeps its size and its tilt to L, the spins keep their mutual azimuth, the total angular momentum J (of L with its second order correction at the reference frequency, and of both spins weighted by the squared masses) makes theta_jn with the line of sight, which makes the returned inclination (0 to pi) with L, and L has azimuth phi_jl about J. A reference frequency that is not positive is refused with a ValueError, and no argument is modified.",
  ["inputs"], "all masses, spin sizes, tilts, azimuths, reference phases and frequencies (positive masses and spins)",
  "Tests compare with lalsimulation on random draws to a tolerance; a wrong rotation or a dropped correction term can hide in it and in special configurations.",
  ["waveforms/conversion.py"], [("masses", "waveforms/conversion.py:chirp_mass_and_mass_ratio_to_components"), ("spins", "waveforms/conversion.py:bilby_spins_to_lalsim"), ("rotations", "waveforms/conversion.py:rotate_y"), ("orbital momentum", "waveforms/conversion.py:XLALSimInspiralLN")],
  "Real arithmetic; the line-of-sight contract uses the callees' contracts for the orbital angular momentum (proved separately); angles where a vector vanishes are outside the precondition.")

p("C30", "Augmentations and injected waveforms follow their stated draws",
  "Signal inversion and reversal return every series either unchanged or, as a whole, negated or reversed in time, each independently with the given probability (half by default; never at zero, always at one). The waveform sampler returns, for every requested element, the waveforms of one index shared by all polarizations and parameters, drawn uniformly from all of them, or all of them in order when asked for -1; requests for more than there are, and polarizations or parameters of mismatched counts, are refused with a ValueError. The waveform projector returns the observed strain of the named interferometers, in their order, at its sample rate. The stored waveforms are not modified.",
  ["inputs", "configurations"], "all batches, channels, lengths, probabilities, numbers of waveforms and polarizations, and all random draws",
  "Tests fix the random numbers or check one probability; which series is flipped and which index is shared must be right for every draw.",
  ["augmentations.py", "transforms/waveforms.py"], [("inversion", "augmentations.py:SignalInverter.forward"), ("reversal", "augmentations.py:SignalReverser.forward"), ("sampling", "transforms/waveforms.py:WaveformSampler.forward"), ("projection", "transforms/waveforms.py:WaveformProjector.forward")],
  "Random draws are free symbolic values constrained only by the arguments of the generator; the augmentations work in place by design, so no frame is claimed for them.")

p("C31", "Heterodyning multiplies every bin by the Newtonian chirp's phase",
  "For every batch element, channel and chirp mass, heterodyning multiplies the bin at frequency f of the series' spectrum (divided by the sample rate) by exp(i*3/128*(pi*Mc*f)^(-5/3)), with the chirp mass in seconds and a zero-frequency bin of zero; asked for time series it returns their inverse transform (times the sample rate) of exactly the input's length, odd lengths included, asked for both it returns the time and the frequency series. Unknown kinds of return are refused with a ValueError; the input is not modified.",
  ["inputs", "configurations"], "all series, lengths (even and odd), sample rates and chirp masses",
  "Tests check one even length; the phase of every bin, a second channel or chirp mass, and odd lengths are not reached.",
  ["transforms/heterodyne.py"], [("phase", "transforms/heterodyne.py:Heterodyne.__init__"), ("heterodyning", "transforms/heterodyne.py:Heterodyne.forward")],
  "Fourier transforms are uninterpreted linear functionals. Defect found and fixed: odd lengths lost their last sample (commit 64b680b).")

p("C15", "Distributions sample, and state the density of, the named laws",
  "Every sample is the named law's inverse cumulative distribution applied to a uniform (or normal) draw of its own: Cosine, density cos(x)/(sin(high)-sin(low)); Sine, density sin(x)/(cos(low)-cos(high)); LogUniform, the logarithm uniform; PowerLaw, density proportional to x^index, index 0 refused with a ValueError; LogNormal, the logarithm normal; DeltaFunction, always its peak. Uniform-in-comoving-volume distances (redshift, comoving or luminosity distance) follow the density dVc/ddistance of a flat LCDM cosmology between the bounds, multiplied by the rate function in its rate-evolution variant; an unknown kind of distance and a maximum beyond the redshift grid are refused with a ValueError. log_prob is the logarithm of that normalised density, finite wherever it is positive, and minus infinity outside the bounds. Values given are not modified.",
  ["inputs", "configurations"], "all bounds, indices, cosmological parameters and draws in the proofs; the integral law of the comoving volume also compared with adaptive quadrature on sampled cosmologies (bounded)",
  "Tests look at ranges, means to a tolerance, or at one cosmology to one percent; a density that is not normalised, a missing Jacobian or NaN next to zero distance pass them.",
  ["distributions.py"], [("cosine", "distributions.py:Cosine"), ("power law", "distributions.py:PowerLaw"), ("interpolation", "distributions.py:UniformComovingVolume._linear_interp_1d"), ("volume density", "distributions.py:UniformComovingVolume._generate_probability_grids"), ("log density", "distributions.py:UniformComovingVolume.log_prob")],
  "torch.distributions (uniform, normal, transforms, change of variables) is a trusted model; log(0) stands for minus infinity. Two defects found and fixed: the Cosine density was not normalised, and the comoving-volume log_prob was NaN in the first cell of a range starting at zero.")

p("C24", "Spline interpolation passes through the data and keeps nothing between calls",
  "Spline interpolation fits, for every series (or image, separably along both axes) of the batch on its own, the spline of the stated degree on clamped knots whose inner ones are the averages of as many consecutive inner coordinates as the degree: the basis follows the Cox-de Boor recursion, the coefficients solve the (regularized) normal equations, so that without regularization the spline passes through the data, and beyond the ends of the input coordinates the value at the end holds. Output coordinates given in a call hold for that call and leave those given at construction in force for later ones. Data of up to four dimensions comes back as four. Too few points for the degree, output coordinates given neither before nor now, and data that does not fit the coordinates are refused with a ValueError; the data is not modified.",
  ["inputs", "configurations", "histories"], "all numbers of points, batches, data, regularizations and call orders for the wiring; degrees 1 to 3 for the basis, 1 to 5 for the knots; the comparison with scipy is bounded",
  "Tests use one smooth function on a fixed grid and repeat the same output grid; a coordinate overwritten by an earlier call or a wrong knot away from even grids passes them.",
  ["transforms/spline_interpolation.py"], [("knots", "transforms/spline_interpolation.py:SplineInterpolateBase.generate_fitpack_knots"), ("basis", "transforms/spline_interpolation.py:SplineInterpolateBase.bspline_basis_natural"), ("1D", "transforms/spline_interpolation.py:SplineInterpolate1D.forward"), ("2D", "transforms/spline_interpolation.py:SplineInterpolate2D.forward")],
  "torch.linalg.solve is trusted (an uninterpreted inverse of the matrix); the wiring contracts use the knots' and the basis' contracts in place of their bodies. Defect found and fixed: coordinates given in a call replaced those of the constructor for all later calls.")

p("C22", "The Q-transform scans tiles of the stated energy, frequencies and planes",
  "A Q-tile's energy is, for every series of the batch on its own, the squared modulus of the inverse transform of the spectrum's bins around the tile's frequency (limited to the spectrum) under the bisquare window, divided by its median or mean over time when asked. The Q-transform takes the one-sided, forward-normalised spectrum of the series, computes the tiles of every frequency, and interpolates them first to the requested times, then to the requested frequencies: its result has one dimension more than the input, of exactly the requested shape, by bicubic, bilinear or spline interpolation. The largest energy, over everything, per channel, per batch element or per pair, counts the tiles of the frequencies above the lower and up to the upper end of the search range, whatever that range is. A scan tries the Q values of the tiling that fit duration and sample rate (warning when it leaves some out) and returns the transform of the plane holding the largest energy. Frequencies and Q values are those of gwpy's tiling. Ranges and series given are not modified. Too large a Q, unknown interpolations, normalizations or dimensions and inputs of more than three dimensions are refused with a ValueError, results asked for before there are tiles with a RuntimeError.",
  ["inputs", "configurations"], "all series, batches and channels for enumerated durations, rates, Q values, frequencies and ranges; constructor formulas and spline interpolation are compared with gwpy and scipy (bounded)",
  "Tests compare one configuration with gwpy to a tolerance; ranges beyond the highest tile, odd output sizes, tiles clamped at the ends of the spectrum, batch elements mixed up or a plane chosen by the wrong energy pass them.",
  ["transforms/qtransform.py"], [("tile", "transforms/qtransform.py:QTile.forward"), ("transform", "transforms/qtransform.py:SingleQTransform.forward"), ("largest energy", "transforms/qtransform.py:SingleQTransform.get_max_energy"), ("scan", "transforms/qtransform.py:QScan.forward")],
  "The constructors run natively for enumerated configurations and the state they leave is the methods' precondition; Fourier transform, quantile and interpolation are uninterpreted functionals. The search range must contain a tile of every plane. Four defects found and fixed (see known_findings.json).")

p("C23", "Multi-resolution spectrograms keep the largest value at every bin",
  "A multi-resolution spectrogram has the finest frequency and the finest time grid of its normalised spectrograms and holds, for every batch element, channel and bin, the largest of the spectrograms' values at the bin of the same relative frequency and time (rounded down). Each argument list gives the setting of each spectrogram in turn, and a single value is shared by all. Spectrograms that are not normalised, lists of different lengths other than one and a series of another length are refused with a ValueError. The input is not modified.",
  ["inputs", "configurations"], "all series, batches and channels; seven configurations of one to eight spectrograms (bins sampled evenly on the larger grids)",
  "Tests look at shapes and at one bin; with more than a few lengths (a set's order) or odd ratios of the grids other bins are wrong while these pass.",
  ["transforms/spectrogram.py"], [("spectrogram", "transforms/spectrogram.py:MultiResolutionSpectrogram.forward"), ("arguments", "transforms/spectrogram.py:MultiResolutionSpectrogram._check_and_format_kwargs")],
  "torchaudio's spectrograms are row-wise uninterpreted functionals; the constructor runs natively for enumerated configurations. Defect found and fixed: lists of lengths 8 and 3 were accepted or refused with an IndexError depending on the order of a set.")

p("C21", "Sine-Gaussian and ringdown waveforms have the stated form and energy",
  "A sine-Gaussian's plus polarization is, for every batch element and sample (times counted from the middle of the window), an oscillation of the stated frequency and phase under a Gaussian of the stated quality, cross its quarter-cycle companion, with the amplitudes shared by the eccentricity such that the squares of both integrate over time to hrss squared; results have the parameters' type. A ringdown's polarizations are the damped cosine and sine of the stated frequency, quality and phase from the window's start, proportional to 1+cos^2 and 2cos of the inclination and to one over the distance, with the amplitude at which the black hole ringing at that frequency and quality radiates the fraction epsilon of its rest energy; results are in double precision. Parameters are not modified.",
  ["inputs", "configurations"], "all parameters (frequencies, qualities, hrss and distances positive, quality of a ringdown above 2), batches, whole numbers of samples and rates; the integrals over time and sphere numerically on samples (bounded)",
  "There is no test of the ringdown, and those of the sine-Gaussian compare random draws to a tolerance; a wrong power or angle for some parameters passes them.",
  ["waveforms/adhoc"], [("sine-Gaussian", "waveforms/adhoc/sine_gaussian.py:SineGaussian.forward"), ("ringdown", "waveforms/adhoc/ringdown.py:Ringdown.forward")],
  "Exponential, cosine and sine are uninterpreted, real powers exact. Two defects found and fixed: the ringdown's amplitude grew with epsilon and not its square root, and its cross polarization with the sine of the inclination.")
