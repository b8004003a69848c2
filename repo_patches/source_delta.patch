From cf2c80879fa1cabbf57f25153cfd5b04bdecbab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:53 +0000
Subject: [PATCH 01/12] fix: an error while handling one connection no longer
 runs the server's cleanup

An exception thrown in the forked connection process (or in the command process
when it could not be executed) reached the handler in mainServer(), which removed
the client executables and PID file of the server that was still running.
---
 src/Main.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 4ea51b0..e1a4ffa 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -652,7 +652,10 @@ static void mainServer(int argc, const char *argv[])
 					{
 						(void)close(listener.abandon());
 						signal(SIGCHLD, SIG_DFL);
-						k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client));
+
+						try { k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client)); }
+						catch (...) { std::abort(); } // Only the server process is allowed to clean up after an error
+
 						std::exit(0);
 					}
 
-- 
2.43.0


From 1889a3310f58adf1bf579bc79d054dc8d3e134c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:59 +0000
Subject: [PATCH 02/12] fix: stdin data received after the command closed its
 stdin is discarded

The payload was left in the receive buffer and then parsed as message headers, so
the command was terminated with an "invalid payload type" error.
---
 src/Process.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index 012137c..c80cef4 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -905,7 +905,10 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 							LOG_DEBUG << "Received stdin data (" << payloadValue << " bytes) from client";
 
 							if (stdInPipe.getInput() == Pipe::INVALID_HANDLE)
+							{
 								LOG_DEBUG << "Ignoring " << payloadValue << " received bytes due to closed stdin"; // Ignore data on stdin after close
+								(void)receiveSocket.readString(payloadValue);
+							}
 							else if (!payloadValue)
 								closeStdIn = true;
 							else
-- 
2.43.0


From 51046f127918b547a943aebf052ad4104d86b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 03/12] fix: the server reacts to termination signals while
 connections are active

The connection processes and the commands they started inherited both ends of the
exit request pipe, so closing its input in the server did not wake up the server
until all of them had exited.
---
 src/Main.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index e1a4ffa..9fef5f4 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -651,6 +651,8 @@ static void mainServer(int argc, const char *argv[])
 					if (child == 0)
 					{
 						(void)close(listener.abandon());
+						exitRequested.closeInput(); // The server only wakes up on exit requests if no other process holds the input open
+						exitRequested.closeOutput();
 						signal(SIGCHLD, SIG_DFL);
 
 						try { k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client)); }
-- 
2.43.0


From a23b5416ed178f9fcb899f2b97c83c0d1f13e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:09 +0000
Subject: [PATCH 04/12] fix: do not log in the signal handler

Logging allocates memory and uses stdio, neither of which is async-signal-safe.
---
 src/Main.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 9fef5f4..437202e 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -236,9 +236,8 @@ template <typename T> static T clampPositive(T value, T max)
 }
 
 // Handles signals by requesting that the application exit.
-extern "C" void handleSignal(int signal)
+extern "C" void handleSignal(int)
 {
-	LOG_DEBUG << "Handling signal " << signal;
 #ifdef _WIN32
 	(void)SetEvent(exitRequested);
 #else
-- 
2.43.0


From caca253eb10013d254555b42eb9d20a8f82084c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 05/12] fix: a daemon removes its client executables and PID
 file when given relative paths

The daemon changes its working directory to / before cleaning up, so relative
paths no longer referred to the files it created.
---
 src/Main.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 437202e..3d2cb32 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -422,6 +422,15 @@ static void mainServer(int argc, const char *argv[])
 			deferredArgc = deferredArgs.size();
 	}
 
+#ifndef _WIN32
+	// The daemon changes its working directory, so make any paths used to clean up absolute
+	if (daemonize && !k8psh::Utilities::isAbsolutePath(directory))
+		directory = k8psh::Utilities::getWorkingDirectory() + '/' + directory;
+
+	if (daemonize && !pidFilename.empty() && !k8psh::Utilities::isAbsolutePath(pidFilename))
+		pidFilename = k8psh::Utilities::getWorkingDirectory() + '/' + pidFilename;
+#endif
+
 	// Generate the appropriate client symlinks / executables
 	std::string clientCommand = k8psh::Utilities::getExecutablePath();
 	const auto commands = configuration.getCommands();
-- 
2.43.0


From c1da6ad2f553b63eef376ddcc18a3a58ba999fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 06/12] fix: terminate the command on every error and never
 signal a reaped process

Errors other than an orderly disconnect (a connection reset, a failed write, ...)
left the command running, while a disconnect after the command had already been
reaped sent the signal to a process ID that was no longer in use.
---
 src/Process.cxx | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index c80cef4..b0a8ca8 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -760,6 +760,20 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 		}
 #endif
 
+#ifndef _WIN32
+		// Terminates the process if it has not been reaped before the connection ends
+		struct Terminator
+		{
+			int _process;
+
+			~Terminator()
+			{
+				if (_process > 0)
+					(void)kill(_process, 15); // Send TERM
+			}
+		} terminator = { process };
+#endif
+
 		stdInPipe.closeOutput();
 		stdOutPipe.closeInput();
 		stdErrPipe.closeInput();
@@ -816,6 +830,9 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 				stdInData.clear();
 				stdInPipe.closeInput();
 				processHasExited = true;
+#ifndef _WIN32
+				terminator._process = 0;
+#endif
 			}
 
 #ifndef _WIN32
@@ -920,8 +937,6 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 					default:
 #ifdef _WIN32
 						(void)TerminateProcess(process, UINT(-1));
-#else
-						(void)kill(process, 15); // Send TERM
 #endif
 
 						if (!dataReceived)
@@ -987,6 +1002,8 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			}
 		}
 
+		terminator._process = 0;
+
 		if (WIFEXITED(exitStatus)) // Only send exit code on normal termination
 		{
 			int exitCode = WEXITSTATUS(exitStatus);
-- 
2.43.0


From 28e87f0f6902d17637e5c4d3f3357010cf707a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 07/12] fix: output received by the client is written
 immediately

Output without a newline (or all output if stdout is not a terminal) was held in
the stdio buffer while waiting for more data, and failures to write it were ignored.
---
 src/Process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index b0a8ca8..1a37cc4 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -247,7 +247,7 @@ static void outputStdStreamData(std::ostream &stream, FILE *file, const char *na
 		LOG_DEBUG << "Received " << name << " data (" << length << " bytes) from server";
 		std::string data = receiveSocket.readString(length);
 
-		if (!std::fwrite(data.data(), data.length(), 1, file))
+		if (!std::fwrite(data.data(), data.length(), 1, file) || std::fflush(file) != 0)
 			LOG_ERROR << "Failed to write " << name << " data";
 	}
 	else if (!stream.eof())
-- 
2.43.0


From 85a216dabfeb7025894550e32b5dd548af7035e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 08/12] fix: the client no longer polls stdin after closing it

Polling the closed descriptor returns immediately, so the client consumed a full
core until the command exited.
---
 src/Process.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index 1a37cc4..824c7b3 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -429,6 +429,9 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 						LOG_DEBUG << "Received stdin close command from server";
 						std::cin.setstate(std::ios_base::eofbit);
 						(void)std::fclose(stdin);
+#ifndef _WIN32
+						pollSet[0].fd = -1; // The descriptor is no longer valid, so ignore it from now on
+#endif
 					}
 
 					break;
-- 
2.43.0


From 0edcbb49f83260731c0e6478156fa8fe36f5cf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:36 +0000
Subject: [PATCH 09/12] fix: truncate an existing file when installing over it

Installing over a larger file left its trailing bytes behind.
---
 src/Main.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 3d2cb32..1d5f356 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -156,7 +156,7 @@ static void mainClient(int argc, const char *argv[])
 					if (source < 0)
 						LOG_ERROR << "Failed to open " << clientCommand << ": " << errno;
 
-					int dest = open(installFilename.c_str(), O_WRONLY | O_CREAT, 0755);
+					int dest = open(installFilename.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0755);
 
 					if (dest < 0)
 						LOG_ERROR << "Failed to open " << installFilename << ": " << errno;
-- 
2.43.0


From 91cf0b38747987f2d045667458e1380216fe3f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 10/12] fix: hexadecimal escapes with letters are decoded
 correctly

---
 src/Configuration.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index da9de39..ea39635 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -28,11 +28,11 @@ static char parseHexValue(char c)
 	if (c >= '0' && c <= '9')
 		return c - '0';
 	else if (c >= 'a' && c <= 'f')
-		return c - 'a';
+		return c - 'a' + 10;
 	else if (!(c >= 'A' && c <= 'F'))
 		LOG_ERROR << "Invalid hex character in configuration: " << c;
 
-	return c - 'A';
+	return c - 'A' + 10;
 }
 
 // Parses a string from the configuration.
-- 
2.43.0


From c601a410eacfa062b21970eb9b5ce426d196aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 11/12] fix: reject port zero, including after wrapping past
 the last port

Port zero makes the server listen on a random port that no client can reach.
---
 src/Configuration.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index ea39635..93627a9 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -275,6 +275,9 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 				currentPort = static_cast<unsigned short>(portValue);
 			}
 
+			if (currentPort == 0)
+				LOG_ERROR << "Port out of range for host \"" << host << '"';
+
 			// Assign the new host information
 			currentHost->_hostname = host.substr(0, colon);
 			currentHost->_port = currentPort++;
-- 
2.43.0


From 8802578eb656b4395a1abb6494ee02ca05ebd341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 12/12] fix: do not reset the connection before the client
 receives the exit code

Closing the socket while it has unread stdin data resets the connection, so the
client failed (or was killed by SIGPIPE) instead of returning the exit code of any
command that did not read all of its stdin.
---
 src/Process.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index 824c7b3..b9f7895 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -1013,6 +1013,12 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 
 			LOG_DEBUG << "Sending exit code (" << exitCode << ") to client";
 			socket.write({ std::uint8_t(EXIT_CODE), std::uint8_t(exitCode), std::uint8_t(exitCode >> 8), std::uint8_t(exitCode >> 16), std::uint8_t(exitCode >> 24) });
+
+			// Discard all remaining stdin data until the client disconnects, closing the socket with unread data would reset the connection before the exit code is received
+			std::vector<std::uint8_t> discarded(INITIAL_MTU_SIZE);
+
+			while (socket.read(discarded))
+				; // Continue until the client disconnects
 		}
 #endif
 
-- 
2.43.0

